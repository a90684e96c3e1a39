"""C28: footnote numbers, references and notes agree on every page."""
from .common import *
from .c21 import Maker
from .c22 import unv
from .c24 import entry
from .c26 import Chain, Undecided, defaults

TECHNIQUE = ('constant propagation with stand-in layouts: the collection of the footnotes of seeded documents, and the making of one page for every scenario of '
             'which references the first and the second layout place, are folded through the document code; the log of layouts, positions, created notes and drawn '
             'parts is then compared with what the references of the final layout require')

SELF = ('sym', 'self')
PDF_, PAGE, SECTION = ('obj', 'PDF', 800001), ('obj', 'PDFPage', 800002), ('obj', 'PDFContent', 800003)
LOG, POS, RUNS = ('ghost', 'log'), ('ghost', 'position'), ('ghost', 'runs')
TOP, BOTTOM, HEIGHT, NOTE_HEIGHT = 560, 60, 500, 25


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('collect', 'every footnote of the document is kept under the name its reference carries')
    rep.rule('numbers', 'the references of a page are numbered from 1 in the order of the layout; the number of the note is the same')
    rep.rule('notes', 'the notes drawn on a page are those of the references in the layout that is drawn')
    rep.rule('again', 'a page with notes is laid out again from the position it started at, in the space the notes leave')
    rep.rule('below', 'the notes are drawn below the content of the page')
    rep.section('collect', collect, prog, rep)
    rep.rule('text', 'the text of a reference is the number it has at the moment it is laid out')
    rep.section('text', reference_text, prog, rep)
    for sc in scenarios(rep):
        for first in (True, False):
            rep.section('notes', page, prog, rep, sc, first)


# ------------------------------------------------------------------ engine
def engine(prog):
    keep = {m.qual for m in prog.cls('PDFDocument').methods.values() if m.name not in ('__init__', '_set_running_sections', '_process_section', 'run', 'output')}
    keep |= {'PDF._content', 'PDF._position_and_size', 'copy', 'process_style'}
    c = prog.cls('PDFPage')
    keep |= {m.qual for m in list(c.getters.values()) + list(c.setters.values())}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep}, inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = True
    eng.recursion = 20
    eng.max_depth = 60
    eng.unwind = 8
    return eng


def helpers_of(prog):
    """plain functions the document module uses are followed as well"""
    return set()


# ------------------------------------------------------------------ collection
def document(mk, notes):
    """a document with footnotes in every kind of container; the reference elements are returned"""
    refs = []

    def ref(note, **kw):
        e = mk.d([('footnote', note)] + list(kw.items()))
        refs.append((e, note))
        return e
    n = iter(notes)
    para = mk.d([('.b', mk.l([C('text'), ref(next(n)), C('more'), mk.d([('.', mk.l([ref(next(n))]))])]))])
    table = mk.d([('table', mk.l([mk.l([C('x'), mk.d([('.', ('tuple', (C('y'), ref(next(n)))))])]), mk.l([mk.d([('content', mk.l([ref(next(n), ids=mk.l([C('mine')]))]))])])]))])
    group = mk.d([('group', mk.l([mk.d([('.', mk.l([ref(next(n))]))])]))])
    cols = mk.d([('cols', mk.d([('count', C(2))])), ('content', mk.l([para, table]))])
    sections = mk.l([mk.d([('style', mk.d([('s', C(1))])), ('content', mk.l([C('title'), cols, group]))]), mk.d([('content', mk.l([mk.d([('.', mk.l([ref(next(n))]))])]))])])
    return sections, refs


def collect(prog, rep):
    f = prog.func('PDFDocument._traverse_document_footnotes')
    eng = engine(prog)
    st = State()
    mk = Maker(st)
    texts = ['A', 'B', 'C', 'D', 'E', 'F']
    notes = [C('A'), mk.l([C('B')]), mk.d([('.', C('C')), ('style', mk.d([('b', C(1))]))]), ('tuple', (C('D'),)), C(5), mk.d([('.i', C('F'))])]
    sections, refs = document(mk, notes)
    seed(st, mk)
    lists = st.heap[('a', SELF, 'footnotes')]
    for p in eng.analyse(f, args={f.args[1]: sections}, state=st):
        rep.functions |= eng.analysed
        if p.raised:
            rep.check(None if p.facts else False, 'collect', f.loc(), 'a document with footnotes is refused')
            continue
        kept = items(p, p.attr(SELF, 'footnotes'))
        if kept is None:
            rep.unk('collect', f.loc(), 'the footnotes kept')
            continue
        names = []
        for i, (e, note) in enumerate(refs):
            what = 'the footnote %r' % texts[i]
            ids = entry(p.state, e, 'ids')
            got = items(p, ids) if ids else None
            if ids is False:
                rep.bad('collect', f.loc(), '%s has no id on its reference' % what)
                continue
            if got is None or not all(is_c(x) for x in got):
                rep.unk('collect', f.loc(), what)
                continue
            mine = [x[2] for x in got if x != C('mine')]
            if i == 3:
                rep.check(C('mine') in got, 'collect', f.loc(), '%s: the ids given to the reference are lost' % what)
            if not rep_one(rep, len(mine) == 1, f, '%s has the ids %s' % (what, mine)):
                continue
            name = mine[0]
            names.append(name)
            var = entry(p.state, e, 'var')
            rep.check(None if var is None else False if var is False else var == C(name), 'collect', f.loc(), '%s: the text of the reference is the variable %s, its id is %s' % (
                what, show(var)[:40] if var else var, name))
            index = index_of(name)
            if index is None or not 0 <= index < len(kept):
                rep.check(None if index is None else False, 'collect', f.loc(), '%s is named %r of %d' % (what, name, len(kept)))
                continue
            k = kept[index]
            rep.check(same_note(p, k, note), 'collect', f.loc(), '%s is kept as %s' % (what, show(k)[:60]))
        rep.check(len(set(names)) == len(names), 'collect', f.loc(), 'two footnotes share a name: %s' % names)
        rep.check(len(kept) == len(refs), 'collect', f.loc(), '%d footnotes are kept of %d' % (len(kept), len(refs)))


def rep_one(rep, ok, f, detail):
    rep.check(ok, 'collect', f.loc(), detail)
    return ok


def index_of(name):
    tail = name.split(':')[-1]
    return int(tail) if tail.isdigit() else None


def same_note(p, kept, note):
    if kept == note:
        return True
    v = None
    if kept[0] == 'dict':
        for key in ('.', '.b', '.i'):
            x = entry(p.state, kept, key)
            if x:
                v = x
        w = note
        if note[0] == 'dict':
            w = entry(p.state, note, '.') or entry(p.state, note, '.i')
        if v is None:
            return None
        if v == w:
            return True
        a, b = plain(p, v), plain(p, w)
        return None if a is None or b is None else a == b
    return None


def plain(p, t):
    if is_c(t):
        return str(t[2])
    xs = items(p, t)
    if xs is None or not all(is_c(x) for x in xs):
        return None
    return [x[2] for x in xs] if len(xs) != 1 else str(xs[0][2])


def items(p, t):
    if t is None:
        return None
    if t[0] == 'tuple':
        return list(t[1])
    if t[0] == 'list':
        xs = p.heap.get(('L', t[1]))
        if xs is not None and not any(x[0] in ('star', 'unk') for x in xs):
            return list(xs)
    return None


def seed(st, mk):
    h = st.heap
    h[('a', SELF, 'footnotes')] = mk.l([])
    h[('a', SELF, 'pdf')] = PDF_
    h[('a', PDF_, 'context')] = mk.d([('mine', C('x'))])
    h[('a', PDF_, 'formats')] = mk.d([('$footnote', mk.d([('r', C(0.5)), ('s', C(6))])), ('$footnotes', mk.d([('s', C(10))]))])


# ------------------------------------------------------------------ text of the references
WORDS = ('ghost', 'words')


def reference_text(prog, rep):
    """a paragraph with a reference is laid out three times, with another number each time"""
    keep = {m.qual for c in ('PDFText', 'PDFTextBase') for m in prog.cls(c).methods.values() if m.name not in ('setup_list',)}
    c = prog.cls('PDFTextBase')
    getters = {m.qual for m in list(c.getters.values()) + list(c.setters.values())}
    keep |= getters | {'PDFTextLine.__init__', 'process_style', 'parse_style_str'}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep}, inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = True
    eng.recursion, eng.max_depth = 6, 60

    def word(eng, st, recv, argmap, e):
        w = [v for k, v in argmap.items() if k != 'self'][-1]
        st.heap[WORDS] = ('tuple', st.heap[WORDS][1] + (w,))
        return [(st, new_dict(eng, st, [('status', C('added'))]))]

    def line_part(eng, st, recv, argmap, e):
        o = ('obj', 'PDFTextLinePart', eng.new_id())
        state = ('obj', 'PDFState', eng.new_id())
        st.heap[('a', o, 'state')] = state
        st.heap[('a', state, 'font_family')] = C('Helvetica')
        st.heap[('a', state, 'font_mode')] = C('n')
        return [(st, o)]

    def line(eng, st, recv, argmap, e):
        return [(st, C(True))]
    eng.stubs['PDFTextLine.add_word'] = word
    eng.stubs['PDFTextLine.add_line_part'] = line_part
    eng.stubs['PDFTextBase.add_current_line'] = line
    f = prog.func('PDFTextBase.run')
    init = prog.func('PDFText.__init__')
    for shape in ('alone', 'after text', 'between text'):
        ch = Chain(prog, rep, eng)
        ref = ch.mk.d([('footnote', C('note')), ('ids', ch.mk.l([C('$footnote:0')])), ('var', C('$footnote:0'))])
        content = {'alone': [ref], 'after text': [C('one two'), ref], 'between text': [C('one'), ref, C('three')]}[shape]
        expected = {'alone': '%s', 'after text': 'one two%s', 'between text': 'one%sthree'}[shape]
        context = ch.mk.d([('$footnote:0', C('0'))])
        ch.st.heap[('a', PDF_, 'context')] = context
        ch.st.heap[('a', PDF_, 'formats')] = ch.mk.d([])
        ch.st.facts[('truthy', PDF_)] = True
        ch.st.facts[('isnone', PDF_)] = False
        try:
            o = ch.new('PDFText', content=ch.mk.d([('.', ch.mk.l(content))]), width=C(100), height=C(100), fonts=('obj', 'PDFFonts', 800009), pdf=PDF_)
            for number in (0, 3, 12):
                ch.st.heap[('D', context[1])] = (('kv', C('$footnote:0'), C(number)),)
                ch.st.heap[WORDS] = ('tuple', ())
                ch.st.heap[('a', o, 'last_part')] = ch.st.heap[('a', o, 'last_word')] = C(0)
                ch.call(f, {f.args[0]: o, **defaults(f)})
                words = ch.st.heap[WORDS][1]
                if not all(is_c(w) for w in words):
                    raise Undecided('the words')
                got = ''.join(w[2] for w in words)
                rep.check(got == expected % number, 'text', f.loc(), 'a reference %s: with the number %s the words laid out are %r' % (shape, number, got))
        except Undecided as e:
            rep.unk('text', init.loc(), '%s: %s' % (shape, e))


def new_dict(eng, st, kvs):
    d = ('dict', eng.new_id())
    st.heap[('D', d[1])] = tuple(('kv', C(k), v) for k, v in kvs)
    return d


# ------------------------------------------------------------------ one page
NAMES = 12


def scenarios(rep):
    """(what, parts of the first layout, parts of the second); a part is the list of its ids, each with the references in it"""
    yield 'no references', [['x']], None
    yield 'an image and no references', [None, ['x'], []], None
    yield 'one reference', [[0]], [[0]]
    yield 'references in order', [[0, 1], [2]], [[0, 1], [2]]
    yield 'references that continue an earlier page', [['x', 3], None, [4, 'y']], [['x', 3], None, [4, 'y']]
    yield 'references placed in another order than written', [[5], [3], [4]], [[5], [3], [4]]
    yield 'references of one paragraph in another order than written', [[9, 10, 5, 3]], [[9, 10, 5, 3]]
    yield 'references pushed to the next page by the notes', [[1, 2], [3]], [[1, 2]]
    yield 'a part of a paragraph pushed to the next page by the notes', [[1, 2, 3]], [[1]]
    yield 'all references pushed to the next page by the notes', [['x'], [7]], [['x']]
    yield 'references with two digits', [[9], [10, 11]], [[9], [10]]
    yield 'a reference of the first column pushed to the next page by the notes', [[0, 1], [2]], [[0], [2]]
    yield 'the first references pushed to the next page by the notes', [[4], [5], [1], [2]], [[4], [1]]
    yield 'three references of which the last goes', [[0], [1], [2, 'z']], [[0], [1]]
    # every part of the references of the first layout can be left by the second
    n = 5 if rep.tier == 'thorough' else 3
    for a in range(1, n + 1):
        for bits in range(1 << a):
            kept = [[i] for i in range(a) if bits >> i & 1]
            yield '%d references, %s in the second layout' % (a, [q[0] for q in kept]), [[i] for i in range(a)], kept or [['x']]


def refs_in(parts):
    out = []
    for q in parts:
        for x in q or ():
            if isinstance(x, int):
                out.append(x)
    return out


def build_parts(mk, parts, which, name):
    out = []
    for i, q in enumerate(parts):
        if q is None:
            out.append(mk.d([('type', C('image')), ('mark', C('%s %d' % (which, i)))]))
            continue
        ids = []
        for x in q:
            ids.append((name(x) if isinstance(x, int) else x, mk.l([mk.l([C(1), C(2), C(3), C(4)])])))
        out.append(mk.d([('type', C('paragraph')), ('ids', mk.d(ids)), ('mark', C('%s %d' % (which, i)))]))
    return mk.l(out)


def log(st, *what):
    st.heap[LOG] = ('trace',) + st.heap[LOG][1:] + (what,)


def page(prog, rep, scenario, first):
    what, one, two = scenario
    f = prog.func('PDFDocument._add_content')
    trav = prog.func('PDFDocument._traverse_document_footnotes')
    eng = engine(prog)
    st = State()
    mk = Maker(st)
    seed(st, mk)
    # the footnotes of the document, collected by the program itself
    elements = [mk.d([('footnote', C('note %d' % i))]) for i in range(NAMES)]
    ps = [p for p in eng.analyse(trav, args={trav.args[1]: mk.l(elements)}, state=st) if not p.raised]
    names = None
    if len(ps) == 1:
        names = []
        for e in elements:
            ids = entry(ps[0].state, e, 'ids')
            got = items(ps[0], ids) if ids else None
            if not got or not is_c(got[-1]):
                names = None
                break
            names.append(got[-1][2])
    if names is None:
        rep.unk('notes', f.loc(), 'the names of the references')
        return
    st = ps[0].state
    st.trace, st.base = (), 0
    mk.st = st
    h = st.heap
    for o, kv in ((SELF, dict(section=SECTION, x=C(20), y=C(TOP), width=C(300), height=C(HEIGHT), footnotes_margin=C(10))),
                  (PDF_, dict(page=PAGE, margin=mk.d([('top', C(40)), ('bottom', C(BOTTOM)), ('left', C(20)), ('right', C(20))]), fonts=S('fonts'))),
                  (PAGE, dict(x=C(20), _y=C(TOP), width=C(340), height=C(600), margin_top=C(40), margin_bottom=C(BOTTOM), margin_left=C(20), margin_right=C(20))),
                  (SECTION, dict(x=C(20), min_y=C(TOP), width=C(300), height=C(HEIGHT), max_y=C(BOTTOM), finished=C(False), current_height=C(0),
                                 pdf_content_part=NONE if first else ('obj', 'PDFContentPart', 800004), pdf=PDF_, content=S('section content'), fonts=S('fonts')))):
        for k, v in kv.items():
            h[('a', o, k)] = v
    start = mk.d([('section_element_index', C(3)), ('section_delayed', mk.l([C('delayed')])), ('children_memory', mk.l([C('memory')]))])
    h[POS], h[RUNS], h[LOG] = C('start'), C(0), ('trace',)
    layouts = [build_parts(mk, one, 'first', lambda i: names[i]), build_parts(mk, two if two is not None else one, 'second', lambda i: names[i])]
    stand_ins(prog, eng, layouts, start, names, first)
    what += ', first page of the section' if first else ', later page of the section'
    rep.count('pages followed')
    for p in eng.analyse(f, state=st):
        rep.functions |= eng.analysed
        if p.facts:
            rep.unk('notes', f.loc(), '%s: %s' % (what, list(p.facts)[:2]))
            continue
        if p.raised:
            rep.bad('notes', f.loc(), '%s: making the page fails' % what)
            continue
        judge_page(rep, f, what, p, one, two, layouts, names)


def arg(argmap, fi, name):
    v = argmap.get(name)
    return NONE if v is None else v


def stand_ins(prog, eng, layouts, start, names, first):
    run_ = prog.func('PDFContent.run')

    def field(st, o, k):
        return st.heap.get(('a', o, k))

    def layout(eng, st, recv, argmap, e):
        h = st.heap
        for k, a in (('x', 'x'), ('y', 'min_y'), ('width', 'width'), ('height', 'height')):
            v = argmap.get(k)
            if v is not None and v != NONE:
                h[('a', recv, a)] = v
        if recv == SECTION:
            n = h[RUNS][2]
            pos = h[POS]
            if first and h[('a', SECTION, 'pdf_content_part')] == NONE:
                pos = C('start')
            log(st, 'run', pos, h[('a', SECTION, 'finished')], field(st, SECTION, 'height'), snapshot(eng, st, names))
            h[POS], h[RUNS] = C('moved'), C(n + 1)
            h[('a', SECTION, 'parts')] = layouts[min(n, len(layouts) - 1)]
            h[('a', SECTION, 'finished')] = C(True)
            h[('a', SECTION, 'current_height')] = C(333)
            h[('a', SECTION, 'pdf_content_part')] = ('obj', 'PDFContentPart', 800004)
        else:
            log(st, 'notes', recv, field(st, recv, 'min_y'), field(st, recv, 'height'))
            notes = h.get(('notes of', recv))
            h[('a', recv, 'parts')] = ('tuple', (('parts of', recv),))
            h[('a', recv, 'current_height')] = C(NOTE_HEIGHT * len(notes)) if notes is not None else S('height of notes')
            h[('a', recv, 'finished')] = C(True)
        for k in ('fills', 'lines'):
            eng_list = eng.new_list(st, [])
            h[('a', recv, k)] = eng_list
        return [(st, NONE)]

    def create(eng, st, recv, argmap, e):
        o = ('obj', 'PDFContent', eng.new_id())
        content = argmap.get('content')
        st.heap[('notes of', o)] = notes_in(eng, st, content)
        for k, a in (('x', 'x'), ('y', 'min_y'), ('width', 'width'), ('height', 'height')):
            st.heap[('a', o, a)] = argmap.get(k) or NONE
        st.heap[('a', o, 'finished')] = C(False)
        log(st, 'make', o)
        return [(st, o)]

    def get(eng, st, recv, argmap, e):
        if recv == SECTION and st.heap[POS] == C('start'):
            return [(st, start)]
        return [(st, S('a later position'))]

    def put(eng, st, recv, argmap, e):
        if recv != SECTION:
            return [(st, NONE)]
        vals = [argmap.get(k) for k in ('section_element_index', 'section_delayed', 'children_memory')]
        if first:
            ok = vals[0] == C(0) and all(v is not None and st.heap.get(('L', v[1])) == () for v in vals[1:] if v is None or v[0] == 'list') and all(v is not None for v in vals)
        else:
            ok = all(same_value(eng, st, v, entry(_P(st), start, k)) for v, k in zip(vals, ('section_element_index', 'section_delayed', 'children_memory')))
        st.heap[POS] = C('start') if ok else C('elsewhere')
        return [(st, NONE)]

    def draw(eng, st, recv, argmap, e):
        a = list(argmap.values())
        log(st, 'draw', a[-1] if a else NONE, st.heap.get(('a', PAGE, '_y')))
        return [(st, NONE)]
    eng.stubs['PDFContent.run'] = layout
    eng.stubs['PDFContent.get_state'] = get
    eng.stubs['PDFContent.set_state'] = put
    eng.stubs['PDF._create_content'] = create
    eng.stubs['PDF._add_parts'] = draw
    for q in ('PDF._add_graphics', 'PDFPage.add'):
        eng.stubs[q] = lambda eng, st, recv, argmap, e: [(st, C(0))]


def _P(st):
    return st


def same_value(eng, st, v, w):
    if v is None or w is None or w is False:
        return False
    if v == w:
        return True
    if v[0] == w[0] == 'list':
        return st.heap.get(('L', v[1])) == st.heap.get(('L', w[1]))
    return False


def snapshot(eng, st, names):
    ctx = st.heap.get(('a', PDF_, 'context'))
    if ctx is None or ctx[0] != 'dict':
        return None
    return tuple((n, eng.dict_get(ctx, C(n), NONE, st)) for n in names)


def notes_in(eng, st, content):
    """((number, text) of every note) of a content description; None if unknown"""
    if content is None or content[0] != 'dict':
        return None
    xs = entry(st, content, 'content')
    if not xs or xs[0] != 'list':
        return None
    xs = st.heap.get(('L', xs[1]))
    if xs is None or any(x[0] != 'dict' for x in xs):
        return None
    out = []
    for x in xs:
        style = entry(st, x, 'style')
        if style is None:
            return None
        text = entry(st, x, '.')
        number = entry(st, style, 'list_text') if style and style[0] == 'dict' else None
        if text is None or number is None or (style and style[0] != 'dict'):
            return None
        out.append((number, text))
    return tuple(out)


def constant(t):
    return t[2] if t is not None and t is not False and is_c(t) else None


def judge_page(rep, f, what, p, one, two, layouts, names):
    loc = f.loc()
    entries = p.heap[LOG][1:]
    if p.heap[LOG][0] != 'trace':
        rep.unk('notes', loc, '%s: the layouts made' % what)
        return
    runs = [x for x in entries if x[0] == 'run']
    draws = [x for x in entries if x[0] == 'draw']
    if not runs:
        rep.unk('notes', loc, '%s: no layout of the section' % what)
        return
    wanted = bool(refs_in(one))
    if len(runs) > 1 and not wanted:
        rep.unk('again', loc, '%s: the page is laid out %d times' % (what, len(runs)))
        return
    last = layouts[min(len(runs), 2) - 1]
    final = one if len(runs) == 1 else two
    # what is drawn
    content = [x for x in draws if x[1] in layouts]
    notes = [x for x in draws if x[1][0] == 'tuple' and x[1][1] and x[1][1][0][0] == 'parts of']
    if len(content) + len(notes) != len(draws):
        rep.unk('notes', loc, '%s: something else is drawn' % what)
        return
    rep.check([x[1] for x in content] == [last], 'again', loc, '%s: %s' % (what, 'the content of the page is not drawn' if not content else 'the content drawn is not that of the last layout only'))
    refs = refs_in(final)
    if not refs:
        rep.check(not notes, 'notes', loc, '%s: notes are drawn' % what)
        return
    rep.check(len(runs) >= 2, 'again', loc, '%s: the page is not laid out again' % what)
    if not rep_(rep, len(notes) == 1, 'notes', loc, '%s: %d sets of notes are drawn' % (what, len(notes))):
        return
    o = notes[0][1][1][0][1]
    ns = p.heap.get(('notes of', o))
    if ns is None:
        rep.unk('notes', loc, '%s: the notes' % what)
        return
    texts = [constant(t) for n, t in ns]
    rep.check(None if None in texts else texts == ['note %d' % i for i in refs], 'notes', loc, '%s: the notes drawn are %s, the references of the page are %s' % (
        what, texts, refs))
    numbers = [constant(n) for n, t in ns]
    rep.check(None if None in numbers else [str(n).strip() for n in numbers] == [str(i + 1) for i in range(len(ns))], 'numbers', loc, '%s: the notes are numbered %s' % (what, numbers))
    # the numbers the references were laid out with, and the ones left behind
    snap = runs[-1][4]
    if snap is not None:
        got = [constant(dict(snap).get(names[i])) for i in refs]
        rep.check(None if None in got else [str(x) for x in got] == [str(i + 1) for i in range(len(refs))], 'numbers', loc, '%s: the references are numbered %s' % (what, got))
    # position and space of the second layout
    for r in runs[1:]:
        rep.check(r[1] == C('start'), 'again', loc, '%s: the second layout does not start where the first one did' % what)
        rep.check(r[2] == C(False) if is_c(r[2]) else None, 'again', loc, '%s: the section is still marked as finished from the first layout' % what)
    if len(runs) >= 2:
        h = constant(runs[-1][3])
        ran = [x for x in entries if x[0] == 'notes' and x[1] == o]
        y = constant(ran[-1][2]) if ran else None
        if h is None or y is None:
            rep.unk('below', loc, what)
            return
        need = NOTE_HEIGHT * len(ns)
        rep.check(y <= TOP - h, 'below', loc, '%s: the notes start at %s, the content goes down to %s' % (what, y, TOP - h))
        rep.check(y - need >= BOTTOM, 'below', loc, '%s: the notes start at %s and need %s above %s' % (what, y, need, BOTTOM))
        rep.check(h > 0, 'below', loc, '%s: no space is left for the content' % what)
        room = constant(ran[-1][3])
        rep.check(None if room is None else room >= need, 'below', loc, '%s: the notes get %s and need %s' % (what, room, need))


def rep_(rep, ok, rule, loc, detail):
    rep.check(ok, rule, loc, detail)
    return ok
