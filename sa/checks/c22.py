"""C22: every new page starts from the settings in force, numbered and decorated."""
from .common import *
from .c16 import layers
from .c21 import Maker, bare, opaque_set

TECHNIQUE = ('symbolic evaluation of page creation for every combination of overrides (none, given, zero), orientation and numbering style: size, '
             'margins, event order (current page and page number set before every running section is drawn, cursor set last); the per-page settings of '
             'a description are evaluated on all combinations of matching rules; roman numbering is folded digit by digit')

SELF = ('sym', 'self')
SIDES = ('top', 'right', 'bottom', 'left')


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('size', 'a new page has the size given for it or else the one in force, turned when landscape is in force or asked for')
    rep.rule('margin', 'a new page has the margins given for it, and those in force for the other sides')
    rep.rule('settings', 'creating a page does not change the settings in force')
    rep.rule('current', 'the new page is the current page, with its number, before anything is drawn on it')
    rep.rule('number', 'the page number is position plus offset in the numbering style')
    rep.rule('decorated', 'all running sections are drawn on the new page, in order, with the geometry configured')
    rep.rule('cursor', 'the page is handed over with the cursor at the top left of the content area')
    rep.rule('setup', 'only the settings given are changed')
    rep.rule('perpage', 'page rules of a description apply to the pages they name, in order, and to no other')
    rep.rule('geometry', 'running sections of a description get the place and size their words name')
    rep.section('size', add_page, prog, rep)
    rep.section('number', index, prog, rep)
    rep.section('number', roman, prog, rep)
    rep.section('setup', setup_page, prog, rep)
    rep.section('cursor', page_init, prog, rep)
    rep.section('current', current, prog, rep)
    rep.section('decorated', keep_section, prog, rep)
    rep.section('perpage', per_page, prog, rep)
    rep.section('number', numbering, prog, rep)
    rep.section('geometry', geometry, prog, rep)


def unv(t):
    """versions of attributes dropped, copies removed"""
    def f(x):
        if x[0] == 'attr':
            return ('attr', unv(x[1]), x[2], 0)
        return None
    return subst(bare(t), f)


def same(a, b):
    """three-valued equality of two terms up to versions and arithmetic"""
    a, b = unv(a), unv(b)
    if a == b:
        return True
    d = poly_const(p_sub(a, b)) if numeric(a) and numeric(b) else None
    if d is not None:
        return d == 0
    if not is_known(a) or any(x[0] in ('out', 'head', 'call', 'fn', 'obj') for x in subterms(a)):
        return None
    return False


def numeric(t):
    return t[0] in ('poly', 'sym', 'attr', 'idx', 'get') or is_num_c(t)


def inlined(prog, root, extra=()):
    """the properties of the document and every helper that is none of the services a page is made with"""
    pdf = prog.cls('PDF')
    keep = {root.qual} | set(extra)
    services = {'_content', '_text', '_table', 'content', 'text', 'table', 'image', 'add_image', 'output', 'add_font', '_add_text', '_used_font',
                '_add_or_get_font', '_create_content', '_create_text', '_create_table', '_add_parts', '_add_graphics', 'create_image', '__init__'}
    for g in pdf.methods.values():
        if g.name not in services:
            keep.add(g.qual)
    for g in list(pdf.getters.values()) + list(pdf.setters.values()):
        keep.add(g.qual)
    page = prog.cls('PDFPage')
    for g in list(page.getters.values()) + list(page.setters.values()):
        keep.add(g.qual)
    for g in page.methods.values():
        if g.name != '__init__' and not g.name.startswith('add'):
            keep.add(g.qual)
    out = opaque_set(prog, keep)
    out |= {g.qual for g in prog.all_functions() if g.name in ('get_page_size', 'to_roman') and g.cls is None}
    return out


def number_of(v, idx, style, facts=None):
    """three-valued: the text v is the number of the page at position idx"""
    want = p_add(p_add(idx, C(1)), ('attr', SELF, 'page_numbering_offset', 0))
    hits = [x for x in subterms(v) if x[0] == 'call' and x[1] == 'to_roman']
    if style == 'roman':
        if not hits:
            return False if is_known(v) else None
        arg = hits[0][2][0] if hits[0][2] else hits[0][3][0][1] if hits[0][3] else None
        if arg is None:
            return None
        return same_num(arg, want)
    if hits:
        return False
    if v[0] == 'cat':
        holes = [x for x in v[2]]
        if len(holes) == 1 and holes[0][0] == 'hole' and len(holes[0]) > 1:
            return same_num(holes[0][1], want)
        return False if all(x[0] in ('lit', 'hole') for x in holes) else None
    if v[0] == 'fn' and v[1] == 'str' and len(v[2]) == 1:
        return same_num(v[2][0], want)
    return same_num(v, want) and None


def same_num(a, b):
    d = poly_const(p_sub(unv(a), unv(b)))
    if d is not None:
        return d == 0
    return None if any(x[0] in ('out', 'head', 'call', 'unk') for x in subterms(a)) else False


def add_page(prog, rep):
    fi = prog.func('PDF.add_page')
    for own in (True, False):
        for rot in (NONE, C(True), C(False)):
            for size in (NONE, S('page_size')):
                combo(prog, rep, fi, own, rot, size, 'none', 'arabic')
    for margin in ('none', 'zero', 'part', 'all'):
        for style in ('arabic', 'roman'):
            combo(prog, rep, fi, False, NONE, NONE, margin, style)
            combo(prog, rep, fi, True, C(False), S('page_size'), margin, style)


def combo(prog, rep, fi, own, rot, size, margin, style):
    st = State()
    mk = Maker(st)
    force = mk.d([(s, S(s)) for s in SIDES])
    st.heap[('a', SELF, 'margin')] = force
    st.heap[('a', SELF, 'rotate_page')] = C(own)
    st.heap[('a', SELF, 'page_numbering_style')] = C(style)
    arg = {'none': NONE, 'zero': C(0)}.get(margin)
    if margin == 'part':
        arg = mk.d([('left', S('ml'))])
    if margin == 'all':
        arg = mk.d([(s, S('m' + s)) for s in SIDES])
    before = st.heap[('D', force[1])]
    st.facts[('isnone', S('page_size'))] = False
    eng = Engine(prog, opaque=inlined(prog, fi))
    parts = eng.analyse(fi, args={'page_size': size, 'rotate_page': rot, 'margin': arg}, state=st)
    rep.functions |= eng.analysed
    rep.count('page creations evaluated', 1)
    what = 'with %s, orientation %s%s' % ('a size' if size != NONE else 'no size', 'in force' if rot == NONE else 'given',
                                          {'none': '', 'zero': ', margin 0', 'part': ', one margin', 'all': ', all margins'}[margin])
    for p in parts:
        if p.raised:
            continue
        evs = list(all_events(p.trace))
        new = [e for e, _ in evs if e.kind == 'new' and e.a[1] == 'PDFPage']
        if len(new) != 1:
            rep.check(None if new else False, 'size', fi.loc(), '%d pages are created %s' % (len(new), what))
            continue
        page, given = new[0].a[0], dict((k, v) for k, v in new[0].a[2] if isinstance(k, str))
        dims(rep, new[0].loc, given, size, own if rot == NONE else rot == C(True), what)
        for s in SIDES:
            v = given.get('margin_' + s)
            if v is None:
                rep.check(None if any(k not in given for k in ()) or '**' in given else False, 'margin', new[0].loc, 'no %s margin %s' % (s, what))
                continue
            want = S(s)
            if margin == 'zero':
                want = C(0)
            elif margin == 'part' and s == 'left':
                want = S('ml')
            elif margin == 'all':
                want = S('m' + s)
            rep.check(same(v, want), 'margin', new[0].loc, '%s: the %s margin of the page is %s' % (what, s, show(v)[:60]))
        # the settings in force
        rep.check(p.heap.get(('D', force[1])) == before, 'settings', fi.loc(), 'the margins in force are changed when a page is added ' + what)
        for e, _ in evs:
            if e.kind == 'write' and e.a[0] == SELF and e.a[1] in ('page_width', 'page_height', 'rotate_page', 'margin', 'running_sections',
                                                                     'page_numbering_offset', 'page_numbering_style'):
                rep.bad('settings', e.loc, 'adding a page sets %s' % e.a[1])
            if e.kind in ('mut', 'append') and unv(e.a[0]) in (('attr', SELF, 'running_sections', 0),):
                rep.bad('settings', e.loc, 'adding a page changes the running sections')
        sequence(rep, eng, fi, p, page, style, evs)


def dims(rep, loc, given, size, turned, what):
    w, h = given.get('width'), given.get('height')
    if w is None or h is None:
        rep.unk('size', loc, 'no width or height')
        return
    out = []
    for v in (w, h):
        v = unv(v)
        if v == ('attr', SELF, 'page_width', 0):
            out.append(('force', 0))
        elif v == ('attr', SELF, 'page_height', 0):
            out.append(('force', 1))
        elif v[0] == 'idx' and is_c(v[2]) and v[1][0] == 'call' and v[1][1] == 'get_page_size':
            out.append(('given', v[2][2]))
        else:
            out.append(None)
    if None in out:
        rep.unk('size', loc, 'size %s x %s' % (show(w)[:50], show(h)[:50]))
        return
    src = 'given' if size != NONE else 'force'
    want = [(src, 1), (src, 0)] if turned else [(src, 0), (src, 1)]
    rep.check(out == want, 'size', loc, '%s, landscape %s: the page is %s wide and %s high' % (what, turned, show(w)[:50], show(h)[:50]))


def sequence(rep, eng, fi, p, page, style, evs):
    """order of what happens to the new page"""
    added = index = number = None
    drawn = False
    n0 = ('fn', 'len', (('attr', SELF, 'pages', 0),))
    ends = {}
    for e, ctx in evs:
        inloop = bool(ctx)
        if e.kind == 'append' and unv(e.a[0]) == ('attr', SELF, 'pages', 0) and e.a[1] == page:
            added = e
            if drawn:
                rep.bad('current', e.loc, 'the page joins the document after running sections are drawn')
        elif e.kind == 'mut' and unv(e.a[0]) == ('attr', SELF, 'pages', 0):
            if e.a[1] in ('insert', 'extend') and any(contains(a, page) for a in e.a[2] if isinstance(a, tuple)):
                added = e
                rep.check(False if e.a[1] == 'insert' else None, 'current', e.loc, 'the page is not added at the end')
        elif e.kind == 'write' and e.a[0] == SELF and e.a[1] == '_page_index':
            index = e
            v = unv(e.a[2])
            d = poly_const(p_sub(v, n0))
            if d is None and v[0] == 'c' and v[2] == -1:
                d = 0
            rep.check(None if d is None else d == 0, 'current', e.loc, 'the current page is set to %s' % show(v)[:60])
            if drawn:
                rep.bad('current', e.loc, 'the current page is changed after running sections are drawn')
        elif e.kind == 'setitem' and e.a[1] == C('$page'):
            number = e
            rep.check(number_of(e.a[2], n0, style), 'number', e.loc, 'the page number of the new page is %s (%s)' % (show(e.a[2])[:80], style))
            if drawn:
                rep.bad('number', e.loc, 'the page number is set after running sections are drawn')
        elif e.kind == 'loop':
            pass
        elif e.kind == 'call' and e.a[0] == 'PDF._content':
            if not drawn:
                rep.check(added is not None, 'current', e.loc, 'running sections are drawn before the page is in the document')
                rep.check(index is not None, 'current', e.loc, 'running sections are drawn before the page is the current page')
                rep.check(number is not None, 'number', e.loc, 'running sections are drawn before the page number is set')
            drawn = True
            ends = {}
            section(rep, e, ctx)
        if e.kind == 'write' and e.a[0] == page and e.a[1] in ('x', '_y'):
            ends[e.a[1]] = e
    rep.check(True if added else None, 'current', fi.loc(), 'the page is not added to the pages')
    rep.check(True if index else None, 'current', fi.loc(), 'the page does not become the current page')
    rep.check(True if number else None, 'number', fi.loc(), 'the page number is not set')
    loops = [e.a if isinstance(e.a, Loop) else e.a[0] for e, c in evs if e.kind == 'loop']
    loops = [L for L in loops if any(x.kind == 'call' and x.a[0] == 'PDF._content' for s, sig in L.parts for x, _ in all_events(s.trace[s.base:]))]
    if not loops:
        rep.check(None if drawn else False, 'decorated', fi.loc(), 'running sections are not drawn on a new page')
    for L in loops:
        sp = unv(L.space) if isinstance(L.space, tuple) else None
        want = ('attr', SELF, 'running_sections', 0)
        if sp == want:
            ok = True
        elif sp is not None and contains(sp, want):
            ok = False if sp[0] in ('slice', 'reversed') or (sp[0] == 'fn' and sp[1] in ('reversed', 'set', 'sorted')) else None
        else:
            ok = None
        rep.check(ok, 'decorated', fi.loc(L.node), 'running sections drawn: %s' % (show(L.space)[:60] if isinstance(L.space, tuple) else L.space))
        for s, sig in L.parts:
            called = [e for e, _ in all_events(s.trace[s.base:]) if e.kind == 'call' and e.a[0] == 'PDF._content']
            if sig in (None, 'continue', 'next') or sig == '':
                rep.check(len(called) == 1, 'decorated', fi.loc(L.node), 'a running section is drawn %d times' % len(called))
            else:
                if str(sig) in ('break', 'return') or (isinstance(sig, tuple) and sig and sig[0] in ('break', 'return')):
                    rep.bad('decorated', fi.loc(L.node), 'drawing running sections stops early')
    if drawn or loops:
        for name, want in (('x', ('attr', page, 'margin_left', 0)), ('_y', p_sub(('attr', page, 'height', 0), ('attr', page, 'margin_top', 0)))):
            e = ends.get(name)
            if e is None:
                rep.bad('cursor', fi.loc(), 'after the running sections the cursor (%s) of the page is left where they ended' % name)
            else:
                rep.check(cursor(e.a[2], want), 'cursor', e.loc, 'the cursor (%s) is set to %s' % (name, show(e.a[2])[:60]))


def cursor(v, want):
    v = unv(v)
    if v == want:
        return True
    d = poly_const(p_sub(v, want))
    if d is not None:
        return d == 0
    if all(x[0] in ('poly', 'attr', 'obj', 'c', 'sym') for x in subterms(v) if x and isinstance(x[0], str)):
        return False
    return None


def section(rep, e, ctx):
    """one running section drawn: everything from its own entry of the same name"""
    args = dict(e.a[2])
    src = None
    for k in ('content', 'width', 'height', 'x', 'y'):
        v = args.get(k)
        if v is None:
            rep.unk('decorated', e.loc, 'argument %s' % k)
            continue
        v = unv(v)
        if v[0] == 'idx' and is_c(v[2]):
            rep.check(v[2][2] == k, 'decorated', e.loc, '%s of a running section comes from its %s' % (k, v[2][2]))
        elif v[0] == 'get' and is_c(v[2]):
            rep.check(v[2][2] == k, 'decorated', e.loc, '%s of a running section comes from its %s' % (k, v[2][2]))
        elif is_c(v):
            rep.bad('decorated', e.loc, '%s of a running section is %s' % (k, show(v)))
        else:
            rep.unk('decorated', e.loc, '%s = %s' % (k, show(v)[:60]))


def index(prog, rep):
    """changing the current page"""
    fi = prog.cls('PDF').setters.get('page_index')
    if fi is None:
        raise AnchorMissing('PDF.page_index setter')
    for style in ('arabic', 'roman'):
        st = State()
        st.heap[('a', SELF, 'page_numbering_style')] = C(style)
        eng = Engine(prog, opaque=inlined(prog, fi))
        arg = fi.args[1]
        for p in eng.analyse(fi, args={arg: S('n')}, state=st):
            if p.raised:
                continue
            rep.functions |= eng.analysed
            seen = False
            for e, _ in all_events(p.trace):
                if e.kind == 'write' and e.a[0] == SELF and e.a[1] == '_page_index':
                    rep.check(same(e.a[2], S('n')), 'current', e.loc, 'the current page becomes %s' % show(e.a[2])[:60])
                if e.kind == 'setitem' and e.a[1] == C('$page'):
                    seen = True
                    rep.check(number_of(e.a[2], S('n'), style), 'number', e.loc, 'the page number becomes %s (%s)' % (show(e.a[2])[:60], style))
            if not seen:
                other = any(e.kind in ('mut', 'call', 'mcall') for e, _ in all_events(p.trace))
                rep.check(None if other else False, 'number', fi.loc(), 'the page number variable does not follow the current page')
    g = prog.func('PDF.get_page_number')
    for style in ('arabic', 'roman'):
        st = State()
        st.heap[('a', SELF, 'page_numbering_style')] = C(style)
        eng = Engine(prog, opaque=inlined(prog, g))
        for p in eng.analyse(g, state=st):
            if p.raised or p.ret is None:
                continue
            rep.check(number_of(p.ret, ('attr', SELF, '_page_index', 0), style), 'number', g.loc(), 'the number of the page is %s (%s)' % (show(p.ret)[:60], style))


def plain_roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


def roman(prog, rep):
    """every digit in every position, alone and with neighbours"""
    fi = prog.func('to_roman')
    ns = [d * 10 ** k for k in range(4) for d in range(1, 10) if d * 10 ** k < 4000]
    ns += [11 * d for d in range(1, 10)] + [111 * d for d in range(1, 10)] + [1111, 2222, 3333, 1994, 2049, 3888, 3999, 1066, 404, 505, 990, 3040]
    for n in ns:
        eng = Engine(prog)
        parts = eng.analyse(fi, args={fi.args[0]: C(n)})
        rep.functions |= eng.analysed
        for p in parts:
            if p.raised:
                rep.check(False if len(parts) == 1 else None, 'number', fi.loc(), 'no roman number for %d' % n)
            elif p.ret is not None and is_c(p.ret):
                rep.check(p.ret[2] == plain_roman(n), 'number', fi.loc(), 'the roman number of %d is %r' % (n, p.ret[2]))
            else:
                rep.unk('number', fi.loc(), 'roman number of %d' % n)
    rep.count('roman numbers folded', len(ns))


def setup_page(prog, rep):
    fi = prog.func('PDF.setup_page')
    attrs = {'page_size': ('page_width', 'page_height'), 'rotate_page': ('rotate_page',), 'margin': ('margin',)}
    opaque = inlined(prog, fi) | {g.qual for g in prog.all_functions() if g.name == 'parse_margin'}
    for given in ((), ('page_size',), ('rotate_page',), ('margin',), ('page_size', 'rotate_page', 'margin')):
        for falsy in (False, True):
            args = {k: NONE for k in attrs}
            for k in given:
                args[k] = {'rotate_page': C(False), 'margin': C(0)}.get(k, S(k)) if falsy else S(k)
            eng = Engine(prog, opaque=opaque)
            st = State()
            for k in attrs:
                st.facts[('isnone', S(k))] = False
            parts = eng.analyse(fi, args=args, state=st)
            rep.functions |= eng.analysed
            for p in parts:
                if p.raised:
                    continue
                wrote = {}
                for e, _ in all_events(p.trace):
                    if e.kind == 'write' and e.a[0] == SELF:
                        wrote[e.a[1]] = e
                for k, names in attrs.items():
                    for i, a in enumerate(names):
                        e = wrote.get(a)
                        if k not in given:
                            if e is not None:
                                v = unv(e.a[2])
                                rep.check(True if v == ('attr', SELF, a, 0) else False if is_known(v) else None, 'setup', e.loc,
                                          '%s is changed though no %s was given' % (a, k))
                            else:
                                rep.ok('setup', fi.loc())
                            continue
                        if e is None:
                            rep.check(False, 'setup', fi.loc(), '%s given as %s does not change %s' % (k, show(args[k]), a))
                            continue
                        v = unv(e.a[2])
                        if k == 'rotate_page':
                            ok = True if v == args[k] or v == ('fn', 'bool', (args[k],)) else False if is_known(v) and not contains(v, args[k]) else None
                        elif k == 'margin':
                            ok = True if v[0] == 'call' and v[1] == 'parse_margin' else None if contains(v, args[k]) or v[0] == 'dict' else False
                        else:
                            ok = None
                            if v[0] == 'idx' and is_c(v[2]) and v[1][0] == 'call' and v[1][1] == 'get_page_size':
                                ok = v[2][2] == i
                        rep.check(ok, 'setup', e.loc, '%s given as %s: %s becomes %s' % (k, show(args[k]), a, show(v)[:60]))


def page_init(prog, rep):
    cls = prog.cls('PDFPage')
    fi = cls.methods['__init__']
    keep = {g.qual for g in cls.methods.values()} | {g.qual for g in list(cls.getters.values()) + list(cls.setters.values())}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep})
    for p in eng.analyse(fi):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        w, h = S('width'), S('height')
        m = {s: S('margin_' + s) for s in SIDES}
        want = {'width': w, 'height': h, 'x': m['left'], '_y': p_sub(h, m['top']), 'content_width': p_sub(p_sub(w, m['right']), m['left']),
                'content_height': p_sub(p_sub(h, m['top']), m['bottom'])}
        want.update({'margin_' + s: m[s] for s in SIDES})
        got = {}
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and e.a[0] == SELF:
                got[e.a[1]] = e
        for k, v in want.items():
            if k in got:
                rep.check(same_num(got[k].a[2], v), 'cursor', got[k].loc, '%s of a new page is %s' % (k, show(got[k].a[2])[:60]))
            else:
                rep.unk('cursor', fi.loc(), k)


def current(prog, rep):
    """what the document calls its page is the page at the current position"""
    pdf = prog.cls('PDF')
    for name, want in (('page', lambda t: t == PAGE), ('width', lambda t: t == ('attr', PAGE, 'width', 0)), ('height', lambda t: t == ('attr', PAGE, 'height', 0)),
                       ('page_index', lambda t: t == ('attr', SELF, '_page_index', 0))):
        g = pdf.getters.get(name)
        if g is None:
            rep.unk('current', 'PDF', 'no property ' + name)
            continue
        eng = Engine(prog, opaque=set())
        for p in eng.analyse(g):
            if p.raised or p.ret is None:
                continue
            rep.functions |= eng.analysed
            v = unv(p.ret)
            known = all(x[0] in ('attr', 'idx', 'sym', 'c', 'poly') for x in subterms(v))
            rep.check(True if want(v) else False if known else None, 'current', g.loc(), 'the %s of the document is %s' % (name, show(v)[:60]))


PAGE = ('idx', ('attr', SELF, 'pages', 0), ('attr', SELF, '_page_index', 0))


def keep_section(prog, rep):
    """running sections are kept as they were given"""
    fi = prog.func('PDF.add_running_section')
    eng = Engine(prog)
    for p in eng.analyse(fi):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        added = [e for e, _ in all_events(p.trace) if e.kind == 'append' and unv(e.a[0]) == ('attr', SELF, 'running_sections', 0)]
        other = [e for e, _ in all_events(p.trace) if e.kind == 'mut' and unv(e.a[0]) == ('attr', SELF, 'running_sections', 0)]
        if len(added) != 1:
            ins = [e for e in other if e.a[1] == 'insert']
            rep.check(False if ins or not other and not added else None, 'decorated', fi.loc(), 'a running section is not added after the others')
            continue
        d = added[0].a[1]
        if d[0] != 'dict':
            rep.unk('decorated', added[0].loc, show(d)[:60])
            continue
        for k in ('content', 'width', 'height', 'x', 'y'):
            v = eng.dict_get(d, C(k), ('unk', 'missing'), p.state)
            rep.check(True if unv(v) == S(k) else False if is_known(v) and v[0] in ('sym', 'c') else None, 'decorated', added[0].loc,
                      '%s of the running section kept is %s' % (k, show(v)[:60]))


# ------------------------------------------------------------------ page rules of a description
def services(prog, fi, extra=()):
    """everything is opaque but the function, helpers it alone uses and the style helpers"""
    from ..access import private_closure, callers
    keep = {fi.qual} | set(extra)
    cls = fi.cls
    known = {'_set_running_sections', '_add_content', '_process_footnotes', '_get_footnotes_obj', '_check_footnotes', '_check_footnote', 'run', 'output',
             '_traverse_document_footnotes', '__init__', '_process_section'}
    for m in cls.methods.values():
        if m.name not in known:
            keep.add(m.qual)
    out = opaque_set(prog, keep)
    out -= {g.qual for g in prog.all_functions() if g.name == 'process_style'}
    return out


def section_engine(prog, rep, st, sec):
    fi = prog.func('PDFDocument._process_section')
    eng = Engine(prog, opaque=services(prog, fi))
    eng.nomerge = True
    parts = eng.analyse(fi, args={'section': sec}, state=st)
    rep.functions |= eng.analysed
    return fi, eng, parts


def per_page(prog, rep):
    st = State()
    mk = Maker(st)
    a, b, c = C('a'), C('b'), C('c')
    st.heap[('a', SELF, 'style')] = mk.d([('margin', S('doc_margin'))])
    r1 = mk.d([('pages', S('P1')), ('style', mk.d([('rotate_page', S('pp_rotate')), ('margin', S('pp_margin'))]))])
    r2 = mk.d([('pages', S('P2')), ('running_sections', mk.d([('exclude', mk.l([a])), ('include', mk.l([c]))])), ('style', mk.d([('margin', S('p2_margin'))]))])
    st.heap[('a', SELF, 'per_page')] = mk.l([r1, r2])
    sec = mk.d([('style', mk.d([('page_size', S('sec_size'))])), ('running_sections', mk.l([a, b]))])
    fi, eng, parts = section_engine(prog, rep, st, sec)
    ev = [(e, c_) for p in parts if not p.raised for e, c_ in all_events(p.trace)]
    seen = set()
    loops = []
    for p in parts:
        for e in p.trace:
            if e.kind == 'loop':
                for L in ((e.a,) if isinstance(e.a, Loop) else (e.a[0],)):
                    if L.id not in [x.id for x in loops]:
                        loops.append(L)
    done = False
    for L in loops:
        for s, sig in L.parts:
            evs = [e for e in s.trace[s.base:]]
            f1, f2 = matched(s.facts, 'P1'), matched(s.facts, 'P2')
            adds = [i for i, e in enumerate(evs) if e.kind == 'call' and e.a[0] == 'PDF.add_page']
            if not adds:
                continue
            done = True
            rep.count('rule combinations evaluated', 1)
            words = {True: 'in', False: 'not in', None: '?'}
            what = 'page %s the first rule, %s the second' % (words[f1], words[f2])
            for key, val in (('P1', f1), ('P2', f2)):
                for f in s.facts:
                    if f[0] == 'in' and f[2] == S(key) and val is not None:
                        n = unv(f[1])
                        want = ('fn', 'len', (('attr', ('attr', SELF, 'pdf', 0), 'pages', 0),))
                        d = poly_const(p_sub(n, want))
                        rep.check(None if d is None else d == 0, 'perpage', fi.loc(), 'rules are matched against %s' % show(n)[:60])
            setups = [i for i, e in enumerate(evs) if e.kind == 'call' and e.a[0] == 'PDF.setup_page']
            runs = [i for i, e in enumerate(evs) if e.kind == 'call' and e.a[0] == 'PDFDocument._set_running_sections']
            over = dict(evs[adds[0]].a[2])
            if any(v != NONE for v in over.values()):
                rep.unk('perpage', evs[adds[0]].loc, 'arguments given to add_page')
                continue
            if not setups:
                rep.check(False if not any(e.kind in ('call', 'mcall', 'loop') for e in evs[:adds[0]] if e.kind != 'call' or 'document' not in e.fi.module.name) else None,
                          'perpage', fi.loc(), 'the page settings are not applied')
            else:
                if setups[-1] > adds[0]:
                    rep.bad('perpage', evs[setups[-1]].loc, 'the settings of a page are applied after it was added')
                sa = dict(evs[setups[0]].a[2])
                settings(rep, evs[setups[0]].loc, sa, f1, f2, what)
            if not runs:
                rep.unk('perpage', fi.loc(), 'running sections of the page')
            else:
                if runs[-1] > adds[0]:
                    rep.bad('perpage', evs[runs[-1]].loc, 'the running sections of a page are set after it was added')
                if setups and runs[0] < setups[-1]:
                    rep.bad('perpage', evs[runs[0]].loc, 'running sections are placed before the page settings are applied')
                lst = evs[runs[0]].a[2][0][1]
                names = s.heap.get(('L', lst[1])) if lst[0] == 'list' else None
                if names is None and lst[0] == 'tuple':
                    names = lst[1]
                if names is None or not all(is_c(x) for x in names):
                    rep.unk('perpage', evs[runs[0]].loc, 'running sections %s' % show(lst)[:60])
                elif f2 is not None:
                    want = (b, c) if f2 else (a, b)
                    rep.check(tuple(names) == want, 'perpage', evs[runs[0]].loc, '%s: running sections %s instead of %s' % (
                        what, [x[2] for x in names], [x[2] for x in want]))
                area(rep, evs, runs[0], s)
                if setups:
                    stale(prog, rep, eng, evs, setups[-1], s)
            if any(e.kind == 'call' and e.a[0] == 'PDFDocument._add_content' for e in evs[:adds[0]]):
                rep.bad('perpage', evs[adds[0]].loc, 'content is laid out before its page exists')
    if not done:
        rep.unk('perpage', fi.loc(), 'no page is added')
    # the rules themselves stay as they are
    for p in parts:
        for d in (r1, r2):
            rep.check(p.heap.get(('D', d[1])) == st.heap.get(('D', d[1])) or None, 'perpage', fi.loc(), 'page rules are changed')


def matched(facts, key):
    for f, v in facts.items():
        if f[0] == 'in' and f[2] == S(key):
            return v
    return None


def settings(rep, loc, sa, f1, f2, what):
    base = ('attr', SELF, 'page_settings', 0)
    for k in ('page_size', 'rotate_page', 'margin'):
        v = sa.get(k)
        if v is None:
            rep.unk('perpage', loc, 'setting ' + k)
            continue
        v = unv(v)
        if k == 'page_size':
            want = S('sec_size')
        elif k == 'rotate_page':
            want = S('pp_rotate') if f1 else None
        else:
            want = S('p2_margin') if f2 else S('pp_margin') if f1 else S('doc_margin')
        if f1 is None or f2 is None and k == 'margin':
            continue
        if want is None:
            # not given for this page: the settings of the document, never what an earlier page left behind
            if v[0] == 'sym' and v[1].startswith(('pp_', 'p2_', 'sec_', 'doc_')):
                rep.bad('perpage', loc, '%s: %s is %s' % (what, k, show(v)))
            elif v == NONE:
                rep.bad('perpage', loc, '%s: %s of an earlier page or section stays in force' % (what, k))
            else:
                rep.check(True if v[0] in ('get', 'idx', 'attr') or is_c(v) else None, 'perpage', loc, '%s: %s is %s' % (what, k, show(v)[:60]))
            continue
        rep.check(True if v == want else False if v[0] in ('sym', 'c', 'get', 'idx', 'attr') else None, 'perpage', loc, '%s: %s is %s instead of %s' % (
            what, k, show(v)[:60], show(want)))


def area(rep, evs, i, s):
    """content area and page size handed on: of the page being made"""
    pdf = ('attr', SELF, 'pdf', 0)
    turned = None
    for f, v in s.facts.items():
        if f[0] == 'truthy' and unv(f[1]) == ('attr', pdf, 'rotate_page', 0):
            turned = v
    if turned is None:
        rep.unk('perpage', evs[i].loc, 'orientation')
        return
    w, h = ('attr', pdf, 'page_width', 0), ('attr', pdf, 'page_height', 0)
    if turned:
        w, h = h, w
    m = {k: ('idx', ('attr', pdf, 'margin', 0), C(k)) for k in SIDES}
    want = {'x': m['left'], 'width': p_sub(p_sub(w, m['right']), m['left']), 'y': p_sub(h, m['top']), 'height': p_sub(p_sub(h, m['top']), m['bottom'])}
    args = dict(evs[i].a[2])
    for k, v in (('page_width', w), ('page_height', h), ('margin', ('attr', pdf, 'margin', 0))):
        if k in args:
            rep.check(like(args[k], v), 'perpage', evs[i].loc, 'running sections are placed with %s %s' % (k, show(args[k])[:50]))
    for e in evs:
        if e.kind == 'write' and e.a[0] == SELF and e.a[1] in want:
            rep.check(like(e.a[2], want[e.a[1]]), 'perpage', e.loc, '%s of the content area is %s' % (e.a[1], show(e.a[2])[:80]))
        if e.kind == 'call' and e.a[0].endswith('.setup') and e.a[0] != 'PDF.setup':
            for k, v in dict(e.a[2]).items():
                if k in want:
                    rep.check(like(v, want[k]), 'perpage', e.loc, 'the content is laid out with %s %s' % (k, show(v)[:80]))


def stale(prog, rep, eng, evs, i, s):
    """page dimensions read before the settings of the page were applied"""
    names = ('page_width', 'page_height', 'margin', 'rotate_page')
    later = dict.fromkeys(names, 0)
    for e in evs[i + 1:]:
        if e.kind == 'call' and prog.has_func(e.a[0]):
            for n in eng.mods(prog.func(e.a[0])):
                if n in later:
                    later[n] += 1
        elif e.kind in ('callv', 'loop', 'mcall', 'new'):
            return
    for e in evs[i + 1:]:
        terms = []
        if e.kind == 'write' and e.a[0] == SELF and e.a[1] in ('x', 'y', 'width', 'height'):
            terms = [e.a[2]]
        elif e.kind == 'call' and (e.a[0].endswith('.setup') or e.a[0] == 'PDFDocument._set_running_sections'):
            terms = [v for k, v in e.a[2] if k != 'running_sections']
        for t in terms:
            for x in subterms(t):
                if x[0] == 'attr' and x[2] in names and unv(x[1]) == ('attr', SELF, 'pdf', 0):
                    rep.check(x[3] >= s.epoch.get(x[2], 0) - later[x[2]], 'perpage', e.loc, '%s is read before the settings of the page are applied' % x[2])


def like(a, b):
    a, b = unv(a), unv(b)
    if a == b:
        return True
    d = poly_const(p_sub(a, b))
    if d is not None:
        return d == 0
    return False if all(x[0] in ('poly', 'attr', 'idx', 'c', 'sym') for x in subterms(a)) else None


def numbering(prog, rep):
    """numbering settings of a section are in force before its first page is added"""
    for given, reset in ((('page_numbering_offset', 'page_numbering_style'), None), ((), None), ((), True), (('page_numbering_offset',), True), ((), False)):
        st = State()
        mk = Maker(st)
        st.heap[('a', SELF, 'style')] = mk.d([])
        st.heap[('a', SELF, 'per_page')] = mk.l([])
        kv = [(k, S(k)) for k in given]
        if reset is not None:
            kv.append(('page_numbering_reset', C(reset)))
        sec = mk.d([('style', mk.d(kv))])
        fi, eng, parts = section_engine(prog, rep, st, sec)
        for p in parts:
            if p.raised:
                continue
            wrote = {}
            for e, c in all_events(p.trace):
                if e.kind == 'write' and e.a[1] in ('page_numbering_offset', 'page_numbering_style'):
                    if c:
                        rep.unk('number', e.loc, 'numbering set for every page')
                        continue
                    wrote[e.a[1]] = e
            n0 = p_neg(('fn', 'len', (('attr', ('attr', SELF, 'pdf', 0), 'pages', 0),)))
            for k in ('page_numbering_offset', 'page_numbering_style'):
                e = wrote.get(k)
                if k == 'page_numbering_offset' and reset:
                    if e is None:
                        rep.bad('number', fi.loc(), 'page_numbering_reset does not restart the numbers')
                    else:
                        d = poly_const(p_sub(unv(e.a[2]), n0))
                        rep.check(d == 0 if d is not None else (False if unv(e.a[2]) == S(k) else None), 'number', e.loc, 'numbering restarts with offset %s' % show(e.a[2])[:60])
                elif k in given:
                    rep.check(False if e is None else (same(e.a[2], S(k))), 'number', e.loc if e else fi.loc(), '%s of a section is %s' % (
                        k, show(e.a[2])[:60] if e else 'not used'))
                elif e is not None:
                    v = unv(e.a[2])
                    rep.check(True if v[0] == 'attr' and v[2] == k else False if is_c(v) or v[0] in ('fn', 'poly') else None, 'number', e.loc,
                              '%s changes to %s though the section does not say so' % (k, show(v)[:50]))
                else:
                    rep.ok('number', fi.loc())


# ------------------------------------------------------------------ words of running sections
def geometry(prog, rep):
    fi = prog.func('PDFDocument._set_running_sections')
    pw, ph = C(1009), C(2003)
    m = dict(zip(SIDES, (C(11), C(23), C(37), C(53))))
    cases = [('width', 'left', m['left']), ('width', 'right', m['right']), ('width', 'full', pw), ('width', 33, C(33)), ('width', 0, C(0)),
             ('width', None, p_sub(p_sub(pw, m['right']), m['left'])),
             ('height', 'top', m['top']), ('height', 'bottom', m['bottom']), ('height', 'full', ph), ('height', 33, C(33)), ('height', 0, C(0)),
             ('height', None, p_sub(p_sub(ph, m['top']), m['bottom'])),
             ('x', 'left', m['left']), ('x', 'right', p_sub(pw, m['right'])), ('x', 33, C(33)), ('x', None, C(0)),
             ('y', 'top', m['top']), ('y', 'bottom', p_sub(ph, m['bottom'])), ('y', 33, C(33)), ('y', None, C(0))]
    for key, word, want in cases:
        st = State()
        mk = Maker(st)
        kv = [('content', S('stuff'))]
        if word is not None:
            kv.append((key, C(word)))
        sec = mk.d(kv)
        other = mk.d([('content', S('other')), ('width', C(71)), ('height', C(73)), ('x', C(79)), ('y', C(83))])
        before = st.heap[('D', sec[1])]
        st.heap[('a', SELF, 'running_sections')] = mk.d([('n', sec), ('o', other)])
        names = mk.l([C('o'), C('n')])
        keep = {fi.qual} | {g.qual for g in fi.cls.methods.values() if g.name not in ('_process_section', '_add_content', 'run', '__init__', 'output')}
        eng = Engine(prog, opaque=opaque_set(prog, keep))
        args = {}
        for a in fi.args[1:]:
            args[a] = {'running_sections': names, 'page_width': pw, 'page_height': ph, 'margin': mk.d([(s, m[s]) for s in SIDES])}.get(a, S(a))
        parts = eng.analyse(fi, args=args, state=st)
        rep.functions |= eng.analysed
        rep.count('running section words evaluated', 1)
        for p in parts:
            if p.raised:
                continue
            if p.facts:
                rep.unk('geometry', fi.loc(), 'depends on %s' % [show(f[1]) for f in p.facts][:2])
                continue
            calls = [e for e, c in all_events(p.trace) if e.kind == 'call' and e.a[0] == 'PDF.add_running_section']
            loops = [e for e, c in all_events(p.trace) if e.kind == 'loop']
            if loops or len(calls) != 2:
                rep.check(None if loops or not calls else False, 'geometry', fi.loc(), '%d of 2 running sections are added' % len(calls))
                continue
            args_ = dict(calls[1].a[2])
            first = dict(calls[0].a[2])
            for k, v in (('width', 71), ('height', 73), ('x', 79), ('y', 83)):
                if k in first and first[k] is not None:
                    f = unv(first[k])
                    rep.check(True if f == C(v) else False if is_c(f) else None, 'geometry', calls[0].loc,
                              'the first running section gets %s %s' % (k, show(f)[:50]))
            v = args_.get(key)
            if v is None:
                rep.unk('geometry', calls[1].loc, key)
                continue
            rep.check(same_num(v, want) if not is_c(v) or v[1] in ('int', 'float') else False, 'geometry', calls[1].loc,
                      '%s %s of a running section is %s' % (key, repr(word) if word is not None else 'not given', show(v)[:60]))
            reset = [e for e, _ in all_events(p.trace) if e.kind == 'write' and e.a[1] == 'running_sections']
            cleared = [e for e, _ in all_events(p.trace) if e.kind in ('mut', 'del') and contains(e.a[0], ('sym', 'self')) and e.kind == 'mut' and e.a[1] == 'clear']
            rep.check(True if reset or cleared else None, 'geometry', fi.loc(), 'the running sections of the page before are still there')
            rep.check(p.heap.get(('D', sec[1])) == before, 'settings', fi.loc(), 'the description of a running section is changed while it is placed')
