"""C29: text is measured, selected and encoded with one and the same font."""
import ast
import re
from .common import *
from .c22 import unv
from .c24 import entry
from .c26 import Chain, Undecided, defaults
from .c28 import new_dict

TECHNIQUE = ('constant propagation with stand-in fonts: paragraphs with every combination of family, modes and marker style are folded through the text code with fonts '
             'that mark what they measure and encode, and the operators produced are read back; the tables and objects of standard and embedded fonts are folded from '
             'seeded glyph tables and compared with those')

FONTS = ('obj', 'PDFFonts', 810001)
# ref, family, mode, width of a character in thousandths, embedded
TABLE = [('F1', 'Helvetica', 'n', 500, 0), ('F2', 'Helvetica', 'b', 610, 0), ('F3', 'Helvetica', 'i', 520, 0), ('F4', 'Helvetica', 'bi', 630, 0),
         ('F5', 'Symbol', 'n', 450, 0), ('F6', 'Times', 'n', 410, 0), ('F7', 'Times', 'b', 430, 0), ('F8', 'Times', 'i', 470, 0), ('F9', 'Times', 'bi', 490, 0),
         ('F10', 'Own', 'n', 710, 1), ('F11', 'Own', 'b', 730, 1), ('F12', 'Other', 'n', 810, 1)]
OBJ = {r: ('obj', 'PDFTrueTypeFont' if own else 'PDFStandardFont', 810100 + i) for i, (r, fam, m, w, own) in enumerate(TABLE)}
REF = {o: r for r, o in OBJ.items()}
WIDTH = {r: w / 1000 for r, fam, m, w, own in TABLE}
OF = {(fam, m): r for r, fam, m, w, own in TABLE}
MARK = re.compile('\x01(F\\d+)\x02([^\x03]*)\x03')


def run(prog, rep):
    rep.rule('mode', 'the font of a piece is that of its family and of the modes that are switched on')
    rep.rule('select', 'the font selected in the contents when a piece is drawn is its font, in its size')
    rep.rule('encode', 'a piece is encoded by its font')
    rep.rule('width', 'a piece takes the width its font gives it')
    rep.rule('used', 'the fonts a paragraph declares are those it selects')
    rep.rule('order', 'every piece is drawn, in order')
    rep.rule('standard', 'the widths of a standard font are those of the font it names')
    rep.rule('lookup', 'the font of a family and mode is the one loaded for them; names of fonts differ')
    rep.rule('glyphs', 'an embedded font encodes a character by its glyph, 0 if it has none, and measures that glyph')
    rep.rule('objects', 'the objects written for an embedded font describe that font')
    rep.section('standard', standard, prog, rep)
    rep.section('lookup', lookup, prog, rep)
    rep.section('objects', embedded, prog, rep)
    for what, pieces, kw in paragraphs(rep):
        rep.section('select', paragraph, prog, rep, what, pieces, kw)


def font_of(style):
    mode = ('b' if style.get('b') else '') + ('i' if style.get('i') else '') or 'n'
    fam = style.get('f', 'Helvetica')
    return OF.get((fam, mode)) or OF[(fam, 'n')]


# ------------------------------------------------------------------ paragraphs
def paragraphs(rep):
    off = [None, False, 0]
    on = [True, 1]
    n = 0
    for fam in ('Helvetica', 'Times', 'Symbol', 'Own', 'Other'):
        for b in off + on:
            for i in off + on:
                if rep.tier != 'thorough' and (b is None) != (i is None) and n % 2:
                    n += 1
                    continue
                n += 1
                style = {'f': fam}
                if b is not None:
                    style['b'] = b
                if i is not None:
                    style['i'] = i
                yield 'one piece %s' % show_style(style), [('alpha beta', style)], {}
    styles = [{}, {'b': True}, {'i': True}, {'b': True, 'i': True}, {'f': 'Times'}, {'f': 'Times', 'b': 1}, {'f': 'Own'}, {'f': 'Own', 'b': True}, {'f': 'Symbol', 'b': True}, {'s': 9},
              {'f': 'Other', 's': 14.5}, {'f': 'Own', 'i': True}]
    for a in styles:
        for b in styles:
            yield 'pieces %s and %s' % (show_style(a), show_style(b)), [('one two ', a), ('three ', b), ('four', a)], {}
            if rep.tier == 'thorough':
                for c in styles:
                    yield 'pieces %s, %s and %s' % (show_style(a), show_style(b), show_style(c)), [('one ', a), ('two three', b), (' four', c), (' five', a)], {}
    for a in styles:
        for m in [None, {}] + styles[1:]:
            yield 'a list whose text is %s and marker %s' % (show_style(a), show_style(m)), [('one two', a), (' three', {'i': True})], {'list_text': '1.', 'list_style': m}
        yield 'a list with indent whose text is %s' % show_style(a), [('one two', a)], {'list_text': 'x)', 'list_style': {'b': True, 's': 15}, 'list_indent': 30}
    # pieces inside pieces switch modes off again
    yield 'a mode switched off inside', [('one ', {'b': True}), ('two', {'b': False}), (' three', {'b': True})], {'parent': {'b': True, 'i': True}}
    yield 'a family kept inside', [('one ', {}), ('two', {'i': 0}), (' three', {'b': True})], {'parent': {'f': 'Times', 'i': True}}
    # lines
    for align in 'lrcj':
        yield 'several lines, aligned %s' % align, [('one two three ', {}), ('four five six seven ', {'b': True}), ('eight nine ten eleven', {'f': 'Own'})], {'text_align': align, 'width': 60}
        yield 'a list of several lines, aligned %s' % align, [('one two three ', {}), ('four five six seven ', {'b': True})], {
            'text_align': align, 'width': 70, 'list_text': '(1)', 'list_style': {'f': 'Times', 'i': 1}}


def show_style(s):
    return 'the default' if s is None else ' '.join('%s=%r' % kv for kv in s.items()) or 'plain'


def engine(prog):
    mods = {prog.func(q).module for q in ('PDFTextBase.run', 'PDFColor.__init__', 'parse_style_str')}
    keep = {g.qual for g in prog.all_functions() if g.module in mods}
    keep |= {m.qual for m in prog.cls('PDFFonts').methods.values()}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep}, inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = True
    eng.recursion, eng.max_depth, eng.unwind = 8, 80, 8
    eng.inline_set = {m.qual for m in prog.cls('PDFColor').methods.values()}
    return eng


def stand_in_fonts(eng):
    def text_width(eng, st, recv, argmap, e):
        t = [v for k, v in argmap.items() if k != 'self'][-1]
        if recv not in REF or not is_c(t) or not isinstance(t[2], str):
            raise Undecided('a width')
        return [(st, C(WIDTH[REF[recv]] * len(t[2])))]

    def encode(eng, st, recv, argmap, e):
        t = [v for k, v in argmap.items() if k != 'self'][-1]
        if recv not in REF or not is_c(t) or not isinstance(t[2], str):
            raise Undecided('an encoded text')
        return [(st, C('\x01%s\x02%s\x03' % (REF[recv], t[2])))]
    for c in ('PDFStandardFont', 'PDFTrueTypeFont', 'PDFFont'):
        eng.stubs[c + '.get_text_width'] = eng.stubs[c + '.get_char_width'] = text_width
        eng.stubs[c + '.encode_text'] = encode
    return eng


def fonts_heap(mk):
    h = mk.st.heap
    fams = {}
    for r, fam, m, w, own in TABLE:
        fams.setdefault(fam, []).append((m, OBJ[r]))
        h[('a', OBJ[r], '_ref')] = h[('a', OBJ[r], 'ref')] = C(r)
    h[('a', FONTS, 'fonts')] = mk.d([(fam, mk.d(kv)) for fam, kv in fams.items()])
    h[('a', FONTS, 'loaded_fonts')] = mk.l([('tuple', (C(fam), C(m))) for r, fam, m, w, own in TABLE if own])
    h[('a', FONTS, 'index')] = C(len(TABLE) + 1)
    h[('a', ('class', 'PDFFont'), 'registered_fonts')] = mk.d([])


def term(mk, v):
    if isinstance(v, dict):
        return mk.d([(k, term(mk, x)) for k, x in v.items()])
    if v is None:
        return NONE
    return C(v)


def paragraph(prog, rep, what, pieces, kw):
    f = prog.func('PDFTextBase.run')
    where = prog.func('PDFTextBase.output_text').loc() if prog.has_func('PDFTextBase.output_text') else f.loc()
    eng = stand_in_fonts(engine(prog))
    ch = Chain(prog, rep, eng)
    mk = ch.mk
    fonts_heap(mk)
    kw = dict(kw)
    parent = kw.pop('parent', None)
    width = kw.pop('width', 400)
    try:
        content = mk.l([mk.d([('.', C(text)), ('style', term(mk, style)), ('ids', mk.l([C('p%d' % i)]))]) for i, (text, style) in enumerate(pieces)])
        content = mk.d([('.', content)] + ([('style', term(mk, parent))] if parent else []))
        o = ch.new('PDFText', content=content, width=C(width), height=C(2000), fonts=FONTS, pdf=NONE, **{k: term(mk, v) for k, v in kw.items()})
        r = ch.call(f, {f.args[0]: o, **defaults(f)})
        text, used, ids = (entry(ch.st, r, k) for k in ('text_stream', 'used_fonts', 'ids')) if r is not None and r[0] == 'dict' else (None, None, None)
        if not text or not is_c(text):
            raise Undecided('the operators are %s' % (show(text)[:150] if text else text))
        if ch.st.facts:
            raise Undecided('conditions %s' % list(ch.st.facts)[:2])
    except Undecided as e:
        rep.unk('select', where, '%s: %s' % (what, e))
        return
    rep.count('paragraphs folded')
    judge(rep, where, what, ch, pieces, kw, parent, text[2], used, ids)


TOKEN = re.compile('/(F\\d+) (-?[0-9.]+) Tf|\\(((?:\x01[^\x03]*\x03|[^)\x01])*)\\) ?Tj|(-?[0-9.]+) (-?[0-9.]+) Td')


def judge(rep, where, what, ch, pieces, kw, parent, text, used, ids):
    full = []
    for t, s in pieces:
        style = dict(parent or {})
        style.update(s)
        full.append((t, style))
    expected = []
    if kw.get('list_text'):
        style = dict(full[0][1])
        style.update(kw.get('list_style') or {})
        expected.append(('marker', kw['list_text'], style))
    expected += [('piece %d' % i, t, s) for i, (t, s) in enumerate(full)]
    # what is drawn, character by character, with the font selected and the one that encodes
    drawn, font, size, selected = [], None, None, set()
    for m in TOKEN.finditer(text):
        if m.group(1):
            font, size = m.group(1), float(m.group(2))
        elif m.group(3) is not None:
            body = m.group(3)
            if MARK.sub('', body):
                rep.bad('encode', where, '%s: text is drawn without being encoded by a font: %r' % (what, body))
                return
            for enc, t in MARK.findall(body):
                drawn += [(c, font, size, enc) for c in t if c != ' ']
            selected.add(font)
    want = [(c, font_of(s), s.get('s', 11), name) for name, t, s in expected for c in t if c != ' ']
    if not rep_(rep, 'order', where, [d[0] for d in drawn] == [w[0] for w in want], '%s: the text drawn is %r' % (what, ''.join(d[0] for d in drawn))):
        return
    for (c, font, size, enc), (_, wf, ws, name) in zip(drawn, want):
        if font != wf or size != round(ws, 3):
            rep.bad('select', where, '%s: %s is drawn with %s in size %s, its font is %s in size %s' % (what, name, font, size, wf, ws))
            break
        if enc != wf:
            rep.bad('encode', where, '%s: %s is encoded by %s, its font is %s' % (what, name, enc, wf))
            break
    else:
        rep.ok('select', where)
        rep.ok('encode', where)
        rep.ok('mode', where)
    names = used_names(ch, used)
    if names is None:
        rep.unk('used', where, '%s: %s' % (what, show(used)[:80] if used else used))
    else:
        refs = {OF.get((fam, m)) or OF.get((fam, 'n')) for fam, m in names}
        rep.check(selected <= refs, 'used', where, '%s: selects %s, declares %s' % (what, sorted(map(str, selected)), sorted(map(str, refs))))
    widths(rep, where, what, ch, full, kw, ids)


def rep_(rep, rule, where, ok, detail):
    rep.check(ok, rule, where, detail)
    return ok


def used_names(ch, used):
    if not used:
        return None
    if used[0] == 'set':
        xs = ch.st.heap.get(('S', used[1])) if isinstance(used[1], int) else None
    elif used[0] == 'list':
        xs = ch.st.heap.get(('L', used[1]))
    else:
        xs = used[1] if used[0] == 'tuple' else None
    if xs is None:
        return None
    out = set()
    for x in xs:
        if x[0] != 'tuple' or not all(is_c(y) for y in x[1]):
            return None
        out.add(tuple(y[2] for y in x[1]))
    return out


def widths(rep, where, what, ch, full, kw, ids):
    """the rectangles of the pieces of a paragraph of one line"""
    if 'text_align' in kw or not ids or ids[0] != 'dict':
        return
    x = 0
    if kw.get('list_text'):
        style = dict(full[0][1])
        style.update(kw.get('list_style') or {})
        x = kw.get('list_indent') or WIDTH[font_of(style)] * len(kw['list_text']) * style.get('s', 11)
    for i, (t, s) in enumerate(full):
        w = WIDTH[font_of(s)] * s.get('s', 11)
        rects = entry(ch.st, ids, 'p%d' % i)
        got = rects_of(ch, rects) if rects else None
        if not got:
            rep.unk('width', where, '%s: the rectangle of piece %d' % (what, i))
            return
        left, right = min(r[0] for r in got), max(r[2] for r in got)
        # the space at the end of a piece can belong to either side
        ok = any(abs(left - a) < .01 and abs(right - b) < .01 for a in (x, x + w * (len(t) - len(t.lstrip()))) for b in (x + w * len(t), x + w * len(t.rstrip())))
        rep.check(ok, 'width', where, '%s: piece %d goes from %s to %s, its font gives %s to %s' % (what, i, left, right, round(x, 3), round(x + w * len(t), 3)))
        x = right
        if not t.endswith(' ') and not (i + 1 < len(full) and full[i + 1][0].startswith(' ')):
            continue


def rects_of(ch, t):
    xs = ch.st.heap.get(('L', t[1])) if t[0] == 'list' else None
    if not xs:
        return None
    out = []
    for x in xs:
        ys = ch.st.heap.get(('L', x[1])) if x[0] == 'list' else x[1] if x[0] == 'tuple' else None
        if not ys or not all(is_c(y) for y in ys):
            return None
        out.append([y[2] for y in ys])
    return out


# ------------------------------------------------------------------ standard fonts
AFM = {     # widths in the metrics files of the fonts
    'Helvetica': {' ': 278, 'A': 667, 'W': 944, 'a': 556, 'i': 222, 'm': 833, '1': 556, '@': 1015, '!': 278, '"': 355},
    'Helvetica-Bold': {' ': 278, 'A': 722, 'W': 944, 'a': 556, 'i': 278, 'm': 889, '1': 556, '@': 975, '!': 333, '"': 474},
    'Helvetica-Oblique': {' ': 278, 'A': 667, 'W': 944, 'a': 556, 'i': 222, 'm': 833, '1': 556, '@': 1015, '!': 278, '"': 355},
    'Helvetica-BoldOblique': {' ': 278, 'A': 722, 'W': 944, 'a': 556, 'i': 278, 'm': 889, '1': 556, '@': 975, '!': 333, '"': 474},
    'Times-Roman': {' ': 250, 'A': 722, 'W': 944, 'a': 444, 'i': 278, 'm': 778, '1': 500, '@': 921, '!': 333, '"': 408},
    'Times-Bold': {' ': 250, 'A': 722, 'W': 1000, 'a': 500, 'i': 278, 'm': 833, '1': 500, '@': 930, '!': 333, '"': 555},
    'Times-Italic': {' ': 250, 'A': 611, 'W': 833, 'a': 500, 'i': 278, 'm': 722, '1': 500, '@': 920, '!': 333, '"': 420},
    'Times-BoldItalic': {' ': 250, 'A': 667, 'W': 889, 'a': 500, 'i': 278, 'm': 778, '1': 500, '@': 832, '!': 389, '"': 555},
    'Courier': {c: 600 for c in ' AWaim1@!"'}, 'Courier-Bold': {c: 600 for c in ' AWaim1@!"'},
    'Courier-Oblique': {c: 600 for c in ' AWaim1@!"'}, 'Courier-BoldOblique': {c: 600 for c in ' AWaim1@!"'},
    'Symbol': {' ': 250, 'A': 722, 'W': 768, 'a': 631, 'i': 329, 'm': 576, '1': 500, '@': 549, '!': 333, '"': 713},
    'ZapfDingbats': {' ': 278, 'A': 692, 'B': 786, '!': 974, '"': 961},
}
NAMED = {('Helvetica', 'n'): 'Helvetica', ('Helvetica', 'b'): 'Helvetica-Bold', ('Helvetica', 'i'): 'Helvetica-Oblique', ('Helvetica', 'bi'): 'Helvetica-BoldOblique',
         ('Times', 'n'): 'Times-Roman', ('Times', 'b'): 'Times-Bold', ('Times', 'i'): 'Times-Italic', ('Times', 'bi'): 'Times-BoldItalic',
         ('Courier', 'n'): 'Courier', ('Courier', 'b'): 'Courier-Bold', ('Courier', 'i'): 'Courier-Oblique', ('Courier', 'bi'): 'Courier-BoldOblique',
         ('Symbol', 'n'): 'Symbol', ('ZapfDingbats', 'n'): 'ZapfDingbats'}
PLACES = ('ghost', 'objects')


def literal(mk, mod, node):
    """a module level literal as a value of the analysis"""
    if isinstance(node, ast.Constant):
        return C(node.value)
    if isinstance(node, ast.Dict) and all(isinstance(k, ast.Constant) for k in node.keys):
        return mk.d([(k.value, literal(mk, mod, v)) for k, v in zip(node.keys, node.values)])
    if isinstance(node, (ast.List, ast.Tuple)):
        xs = [literal(mk, mod, x) for x in node.elts]
        return mk.l(xs) if isinstance(node, ast.List) else ('tuple', tuple(xs))
    if isinstance(node, ast.Name) and node.id in mod.globals:
        return literal(mk, mod, mod.globals[node.id])
    if isinstance(node, ast.DictComp) and len(node.generators) == 1 and isinstance(node.value, ast.Constant) and not node.generators[0].ifs:
        g = node.generators[0]
        if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'range' and isinstance(g.target, ast.Name) and all(
                isinstance(x, ast.Constant) for x in g.iter.args):
            k = node.key
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'chr' and len(k.args) == 1 and isinstance(k.args[0], ast.Name):
                return mk.d([(chr(i), C(node.value.value)) for i in range(*[x.value for x in g.iter.args])])
    raise Undecided('the literal %s' % ast.unparse(node)[:60])


def font_engine(prog):
    keep = {m.qual for c in ('PDFFonts', 'PDFFont', 'PDFStandardFont', 'PDFTrueTypeFont') for k in (prog.cls(c).methods, prog.cls(c).getters, prog.cls(c).setters) for m in k.values()}
    mod = prog.func('PDFFonts.get_font').module
    keep |= {g.qual for g in prog.all_functions() if g.module is mod}
    keep |= {'as_hex', 'escape_string', 'subs'}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep}, inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = True
    eng.recursion, eng.max_depth, eng.unwind = 6, 60, 4

    def add(eng, st, recv, argmap, e):
        o = ('obj', 'PDFObject', eng.new_id())
        d = [v for k, v in argmap.items() if k != 'self'][0]
        st.heap[('a', o, 'id')] = C('ref %d' % o[2])
        st.heap[PLACES] = ('tuple', st.heap[PLACES][1] + (('tuple', (o, d)),))
        return [(st, o)]
    def put(eng, st, recv, argmap, e):
        k, v = [v for k, v in argmap.items() if k != 'self'][:2]
        for x in st.heap[PLACES][1]:
            if x[1][0] == recv and x[1][1][0] == 'dict':
                n = x[1][1][1]
                st.heap[('D', n)] = st.heap[('D', n)] + (('kv', k, v),)
                return [(st, NONE)]
        raise Undecided('an object that is changed')
    eng.stubs['PDFBase.add'] = add
    eng.stubs['PDFObject.__setitem__'] = put
    return eng


BASE = ('obj', 'PDFBase', 820001)


def font_chain(prog, rep):
    eng = font_engine(prog)
    ch = Chain(prog, rep, eng)
    ch.st.heap[PLACES] = ('tuple', ())
    mod = prog.func('PDFFonts.get_font').module
    t = literal(ch.mk, mod, ast.Name('STANDARD_FONTS', ast.Load()))
    eng.glob_values[(mod.name, 'STANDARD_FONTS')] = t
    ch.st.heap[('a', ('class', 'PDFFont'), 'registered_fonts')] = ch.mk.d([])
    return ch


def method(ch, o, name, *args):
    f = ch.prog.find_method(ch.prog.cls(o[1]), name)
    if f is None:
        raise Undecided('no method %s' % name)
    full = {f.args[0]: o}
    full.update(defaults(f))
    full.update(zip(f.args[1:], args))
    return unv(ch.call(f, full))


def number(t):
    return t[2] if t is not None and is_c(t) and isinstance(t[2], (int, float)) else None


def attribute(ch, o, name):
    r = ch.eng.get_attr(ch.st, o, name, None)
    return unv(r[0][1]) if len(r) == 1 else None


def standard(prog, rep):
    where = prog.func('PDFFonts.__init__').loc()
    try:
        ch = font_chain(prog, rep)
        fonts = ch.new('PDFFonts')
        seen = {}
        for (fam, m), base in NAMED.items():
            what = '%s %s' % (fam, m)
            o = method(ch, fonts, 'get_font', C(fam), C(m))
            if o[0] != 'obj':
                raise Undecided('%s: %s' % (what, show(o)[:60]))
            ref = attribute(ch, o, 'ref')
            if is_c(ref):
                rep.check(seen.setdefault(ref[2], o) == o, 'lookup', where, '%s: another font has the name %s' % (what, ref[2]))
            else:
                rep.unk('lookup', where, '%s: the name %s' % (what, show(ref)[:60]))
            for c, w in AFM[base].items():
                got = number(method(ch, o, 'get_char_width', C(c)))
                two = number(method(ch, o, 'get_text_width', C(c + 'A' + c)))
                rep.check(None if got is None else abs(got * 1000 - w) < .001, 'standard', where, '%s: %r is %s wide, in %s it is %s' % (what, c, got, base, w / 1000))
                total = (2 * w + AFM[base]['A']) / 1000
                rep.check(None if two is None else abs(two - total) < .000001, 'standard', where, '%s: %r is %s wide, in %s it is %s' % (what, c + 'A' + c, two, base, total))
            ch.st.heap[PLACES] = ('tuple', ())
            r = method(ch, o, 'add_font', BASE)
            d = written(ch, r)
            name = constant(d.get('BaseFont')) if d else None
            rep.check(None if name is None else text(name) == '/' + base, 'standard', where, '%s: the font written is %r' % (what, name))
            for t in ('', 'plain', 'a (b) \\ c'):
                enc = constant(method(ch, o, 'encode_text', C(t)))
                rep.check(None if enc is None else literal_bytes(enc) == t, 'encode', where, '%s: %r is encoded as %r' % (what, t, enc))
    except Undecided as e:
        rep.unk('standard', where, str(e))


def constant(t):
    return t[2] if t is not None and t is not False and is_c(t) else None


def text(v):
    return v.decode('latin') if isinstance(v, bytes) else v


def literal_bytes(s):
    """what a string between parentheses stands for; None if the parentheses do not match"""
    out, i, depth = '', 0, 0
    s = text(s)
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            n = s[i:i + 1]
            m = re.match('[0-7]{1,3}', s[i:])
            if m:
                out += chr(int(m.group(), 8))
                i += len(m.group()) - 1
            else:
                out += {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}.get(n, n)
        else:
            depth += {'(': 1, ')': -1}.get(c, 0)
            if depth < 0:
                return None
            out += '\n' if c == '\r' else c
        i += 1
    return out if depth == 0 else None


def written(ch, o):
    """the dictionary an object was added with, and what was put into it later"""
    for x in ch.st.heap[PLACES][1]:
        if x[1][0] == o:
            return as_dict(ch, x[1][1])
    return None


def as_dict(ch, t):
    if t[0] != 'dict':
        return None
    out = {}
    for l in ch.st.heap[('D', t[1])]:
        if l[0] != 'kv' or not is_c(l[1]):
            return None
        out[l[1][2]] = unv(l[2])
    return out


# ------------------------------------------------------------------ lookup
def lookup(prog, rep):
    f = prog.func('PDFFonts.get_font')
    where = f.loc()
    for what, steps in (
            ('a family loaded mode by mode', [('load', 'Own', 'n'), ('get', 'Own', 'n', 'Own n'), ('load', 'Own', 'b'), ('get', 'Own', 'b', 'Own b'), ('get', 'Own', 'n', 'Own n'), ('get', 'Own', 'bi', 'Own n')]),
            ('a family whose bold is loaded first', [('load', 'Own', 'b'), ('get', 'Own', 'b', 'Own b'), ('load', 'Own', 'n'), ('get', 'Own', 'n', 'Own n'), ('get', 'Own', 'b', 'Own b'), ('get', 'Own', 'i', 'Own n')]),
            ('two families', [('load', 'Own', 'n'), ('load', 'Other', 'n'), ('load', 'Other', 'i'), ('get', 'Own', 'n', 'Own n'), ('get', 'Other', 'n', 'Other n'), ('get', 'Other', 'i', 'Other i'),
                              ('get', 'Own', 'i', 'Own n')]),
            ('registered fonts', [('register', 'Reg', 'n'), ('register', 'Reg', 'b'), ('get', 'Reg', 'n', 'Reg n'), ('get', 'Reg', 'b', 'Reg b'), ('get', 'Reg', 'n', 'Reg n'), ('get', 'Reg', 'b', 'Reg b')]),
            ('registered fonts, bold first', [('register', 'Reg', 'n'), ('register', 'Reg', 'b'), ('register', 'Reg', 'i'), ('get', 'Reg', 'b', 'Reg b'), ('get', 'Reg', 'n', 'Reg n'), ('get', 'Reg', 'i', 'Reg i'),
                                              ('get', 'Reg', 'bi', 'Reg n')]),
            ('registered and loaded fonts', [('register', 'Reg', 'n'), ('load', 'Own', 'n'), ('get', 'Reg', 'n', 'Reg n'), ('load', 'Own', 'bi'), ('get', 'Own', 'bi', 'Own bi'), ('get', 'Reg', 'n', 'Reg n')])):
        try:
            ch = font_chain(prog, rep)
            made = {}

            def init(eng, st, recv, argmap, e):
                path = constant(argmap.get('filename'))
                ref = argmap.get('ref')
                if path is None or ref is None:
                    raise Undecided('a font without path')
                made.setdefault(path, []).append((recv, constant(ref)))
                st.heap[('a', recv, '_ref')] = st.heap[('a', recv, 'ref')] = ref
                return [(st, NONE)]
            ch.eng.stubs['PDFTrueTypeFont.__init__'] = init
            fonts = ch.new('PDFFonts')
            for step in steps:
                path = '/fonts/%s %s.ttf' % (step[1], step[2])
                if step[0] == 'load':
                    method(ch, fonts, 'load_font', C(path), C(step[1]), C(step[2]))
                elif step[0] == 'register':
                    g = prog.func('PDFFont.register')
                    ch.call(g, dict(zip(g.args, (C(step[1]), C(step[2]), C(path)))))
                else:
                    o = method(ch, fonts, 'get_font', C(step[1]), C(step[2]))
                    want = made.get('/fonts/%s.ttf' % step[3], [])
                    if o[0] != 'obj':
                        raise Undecided('%s: %s' % (what, show(o)[:60]))
                    rep.check(o in [w[0] for w in want], 'lookup', where, '%s: %s %s is not the font loaded as %s' % (what, step[1], step[2], step[3]))
            refs = [r for xs in made.values() for o, r in xs]
            rep.check(len(refs) == len(set(refs)), 'lookup', where, '%s: the names of the fonts loaded are %s' % (what, refs))
            first = ['F%d' % i for i in range(1, len(NAMED) + 1)]
            own = {attribute(ch, method(ch, fonts, 'get_font', C(fam), C(m)), 'ref') for fam, m in NAMED}
            rep.check(not any(C(r) in own for r in refs), 'lookup', where, '%s: a font loaded has the name of a standard font (%s)' % (what, refs))
            rep.check(all(len(xs) == 1 for xs in made.values()), 'lookup', where, '%s: a font is loaded %s times' % (what, [len(xs) for xs in made.values()]))
        except Undecided as e:
            rep.unk('lookup', where, '%s: %s' % (what, e))


# ------------------------------------------------------------------ embedded fonts
def tables(rep):
    yield 'a', dict(upem=1000, cmap={32: 'space', 65: 'A', 66: 'B', 67: 'C', 97: 'A', 200: 'E', 0x41F: 'Pe', 0x1F600: 'smile'},
                    gids={'.notdef': 0, 'space': 3, 'A': 5, 'B': 6, 'C': 9, 'E': 40, 'Pe': 92, 'smile': 0x290D},
                    widths={'.notdef': 350, 'space': 250, 'A': 700, 'B': 650, 'C': 610, 'E': 590, 'Pe': 777, 'smile': 1100},
                    box=(-100, -200, 1200, 900), hhea=(800, -210), os2=(2, 400, 0, 690, 810, -220), post=(0, 0), name='Font-A')
    yield 'b', dict(upem=2048, cmap={65: 'x', 66: 'y', 67: 'z', 68: 'w', 120: 'q'}, gids={'.notdef': 0, 'x': 7, 'y': 8, 'z': 9, 'w': 2, 'q': 3},
                    widths={'.notdef': 1229, 'x': 1024, 'y': 1536, 'z': 512, 'w': 2048, 'q': 700},
                    box=(-300, -400, 2500, 1900), hhea=None, os2=(1, 700, 0, 1400, 1600, -440), post=(-12, 1), name='Font-B')
    yield 'c', dict(upem=500, cmap={0x4E00: 'one', 65: 'A'}, gids={'.notdef': 0, 'one': 0x0D0A, 'A': 0x5C28}, widths={'.notdef': 500, 'one': 500, 'A': 300},
                    box=(0, -100, 500, 450), hhea=(440, -110), os2=None, post=(0, 0), name='Font-C')
    yield 'd', dict(upem=1000, cmap={65: 'A'}, gids={'.notdef': 0, 'A': 1}, widths={'.notdef': 600, 'A': 500}, box=(0, -100, 500, 450), hhea=None, os2=None, post=(0, 0), name='Font-D')


def sfnt(mk, n, t):
    """the object a font file is read into; the tables are found under their names"""
    h = mk.st.heap
    k = [830000 + 1000 * n]

    def record(cls, **kw):
        k[0] += 1
        o = ('obj', cls, k[0])
        for a, v in kw.items():
            h[('a', o, a)] = v if isinstance(v, tuple) and v and isinstance(v[0], str) else C(v)
        return o
    ver, weight, fstype, cap, asc, desc = t['os2'] or (None,) * 6
    names = [record('NameRecord', nameID=i, value='%s %d' % (t['name'], i)) for i in range(12)]
    kv = [('cmap', record('CmapTable', mark=t['name'])), ('head', record('HeadTable', unitsPerEm=t['upem'], xMin=t['box'][0], yMin=t['box'][1], xMax=t['box'][2], yMax=t['box'][3])),
          ('name', record('NameTable', names=mk.l(names))), ('post', record('PostTable', italicAngle=t['post'][0], isFixedPitch=t['post'][1]))]
    if t['hhea']:
        kv.append(('hhea', record('HheaTable', ascent=t['hhea'][0], descent=t['hhea'][1])))
    if t['os2']:
        kv.append(('OS/2', record('OS2Table', usWeightClass=weight, fsType=fstype, version=ver, sCapHeight=cap, sTypoAscender=asc, sTypoDescender=desc)))
    for key, o in kv:
        mk.st.facts[('truthy', o)] = True
    sf = mk.d(kv)
    t['sfnt'], t['namerecords'] = sf, names
    t['cmapobj'] = kv[0][1]
    t['cmapdict'] = mk.d([(c, C(g)) for c, g in t['cmap'].items()])
    t['glyphs'] = mk.d([(g, record('Glyph', width=w)) for g, w in t['widths'].items()])
    t['data'] = ('data of %s ' % t['name']).encode() * (n + 2)
    return sf


def fake_library(eng, fonts):
    by_path = {'/fonts/%s.ttf' % n: t for n, t in fonts.items()}
    by = {}
    for t in fonts.values():
        by[t['sfnt']], by[t['cmapobj']] = t, t
        for r in t['namerecords']:
            by[r] = t

    def open_(eng, st, recv, args, kwargs, e):
        path = constant(args[0]) if args else None
        if path not in by_path:
            raise Undecided('the path of the file')
        return [(st, by_path[path]['sfnt'])]

    def path_(eng, st, recv, args, kwargs, e):
        return [(st, args[0])]
    eng.ext_stubs['TTFont'] = open_
    eng.ext_stubs['Path'] = path_

    def on(name, f):
        def g(eng, st, b, args, kwargs, e):
            if b not in by and name not in ('save', 'getvalue'):
                return None
            return f(st, b, args)
        eng.method_stubs[name] = g
    on('getBestCmap', lambda st, b, args: [(st, by[b]['cmapdict'])])
    on('getGlyphSet', lambda st, b, args: [(st, by[b]['glyphs'])])
    on('getGlyphID', lambda st, b, args: [(st, C(by[b]['gids'][args[0][2]]))] if args and is_c(args[0]) and args[0][2] in by[b]['gids'] else None)
    on('getGlyphName', lambda st, b, args: [(st, C({v: k for k, v in by[b]['gids'].items()}[args[0][2]]))] if args and is_c(args[0]) else None)
    on('toStr', lambda st, b, args: [(st, C(by[b]['name']))])
    on('toUnicode', lambda st, b, args: [(st, C(by[b]['name']))])
    on('getDebugName', lambda st, b, args: [(st, C(by[b]['name']))])

    def save(st, b, args):
        if b not in by or not args:
            return None
        st.heap[('content of', args[0])] = C(by[b]['data'])
        return [(st, NONE)]

    def value(st, b, args):
        v = st.heap.get(('content of', b))
        return [(st, v)] if v is not None else None
    on('save', save)
    on('getvalue', value)
    on('getbuffer', value)


def embedded(prog, rep):
    where = prog.func('PDFTrueTypeFont.add_font').loc()
    try:
        ch = font_chain(prog, rep)
    except Undecided as e:
        rep.unk('objects', where, str(e))
        return
    fonts = dict(tables(rep))
    for i, t in enumerate(fonts.values()):
        sfnt(ch.mk, i, t)
    fake_library(ch.eng, fonts)
    objs = {}
    for n, t in fonts.items():
        try:
            objs[n] = ch.new('PDFTrueTypeFont', ref=C('F2' + n), filename=C('/fonts/%s.ttf' % n))
        except Undecided as e:
            rep.unk('objects', where, 'font %s: %s' % (n, e))
    results = {}
    for n, o in objs.items():
        try:
            results[n] = method(ch, o, 'add_font', BASE)
        except Undecided as e:
            rep.unk('objects', where, 'font %s: %s' % (n, e))
    for n, o in objs.items():
        rep.count('embedded fonts')
        try:
            one_font(prog, rep, ch, n, fonts[n], o, results.get(n))
        except Undecided as e:
            rep.unk('objects', where, 'font %s: %s' % (n, e))


def near(a, b):
    return a is not None and abs(a - b) < 1e-6


def one_font(prog, rep, ch, n, t, o, top):
    loc = prog.func('PDFTrueTypeFont.encode_text').loc()
    texts = [chr(c) for c in t['cmap']] + ['?', '\u20ac', '\U0001F601', ''.join(chr(c) for c in t['cmap']) + '?', '\x00', '(', 'A(?)A', '']
    gid = lambda c: t['gids'][t['cmap'][ord(c)]] if ord(c) in t['cmap'] else 0
    wid = lambda c: t['widths'][t['cmap'].get(ord(c), '.notdef')] / t['upem']
    for x in texts:
        enc = constant(method(ch, o, 'encode_text', C(x)))
        got = None
        if enc is not None:
            s = literal_bytes(enc)
            got = [ord(s[i]) << 8 | ord(s[i + 1]) for i in range(0, len(s) - 1, 2)] if s is not None and len(s) % 2 == 0 else []
        rep.check(None if enc is None else got == [gid(c) for c in x], 'glyphs', loc, 'font %s: %r is encoded as the glyphs %s, it has %s' % (n, x, got, [gid(c) for c in x]))
        w = number(method(ch, o, 'get_text_width', C(x)))
        rep.check(None if w is None else near(w, sum(wid(c) for c in x)), 'glyphs', loc, 'font %s: %r is measured as %s, its glyphs take %s' % (n, x, w, sum(wid(c) for c in x)))
        if len(x) == 1:
            w = number(method(ch, o, 'get_char_width', C(x)))
            rep.check(None if w is None else near(w, wid(x)), 'glyphs', loc, 'font %s: %r is measured as %s, its glyph takes %s' % (n, x, w, wid(x)))
    loc = prog.func('PDFTrueTypeFont.add_font').loc()

    def at(d, key):
        v = constant(d.get(key)) if d else None
        return text(v)
    d0 = written(ch, top) if top is not None else None
    if d0 is None:
        raise Undecided('the font object')
    byref = {constant(ch.st.heap[('a', x[1][0], 'id')]): x[1][0] for x in ch.st.heap[PLACES][1]}

    def follow(v):
        r = constant(v)
        return written(ch, byref[r]) if r in byref else None

    def has(d, key, want, name):
        got = at(d, key)
        rep.check(None if got is None else got == want, 'objects', loc, 'font %s: %s of the %s is %s' % (n, key, name, got))
    has(d0, 'Subtype', '/Type0', 'font')
    has(d0, 'Encoding', '/Identity-H', 'font')
    has(d0, 'BaseFont', '/' + t['name'], 'font')
    desc = flat(ch, d0.get('DescendantFonts'))
    d1 = follow(desc[0]) if desc and len(desc) == 1 else None
    if d1 is None:
        raise Undecided('the descendant font')
    has(d1, 'Subtype', '/CIDFontType2', 'descendant')
    has(d1, 'BaseFont', '/' + t['name'], 'descendant')
    has(d1, 'CIDToGIDMap', '/Identity', 'descendant')
    ws = array(ch, d1.get('W')) if d1.get('W') else {}
    if ws is None:
        rep.unk('objects', loc, 'font %s: the widths' % n)
    else:
        dw = number(d1['DW']) if 'DW' in d1 else 1000
        for c in list(t['cmap']) + [None]:
            g = 0 if c is None else t['gids'][t['cmap'][c]]
            got = ws.get(g, dw)
            want = t['widths']['.notdef' if c is None else t['cmap'][c]] * 1000 / t['upem']
            rep.check(None if got is None else abs(got - want) < .01, 'objects', loc, 'font %s: glyph %d is %s wide in the font object, it is measured as %s' % (n, g, got, want))
    fd = follow(d1.get('FontDescriptor'))
    if fd is None:
        raise Undecided('the descriptor')
    has(fd, 'FontName', '/' + t['name'], 'descriptor')
    scale = 1000 / t['upem']
    box = [number(x) for x in flat(ch, fd.get('FontBBox')) or ()]
    rep.check(None if not box or None in box else len(box) == 4 and all(near(a, b * scale) for a, b in zip(box, t['box'])), 'objects', loc, 'font %s: the box is %s' % (n, box))
    ver, weight, fstype, cap, asc, descent = t['os2'] or (None,) * 6
    top_, low = t['hhea'] or ((asc, descent) if t['os2'] else (t['box'][3], t['box'][1]))
    caph = cap if t['os2'] and ver > 1 else top_
    for key, want in (('Ascent', top_ * scale), ('Descent', low * scale), ('CapHeight', caph * scale), ('ItalicAngle', t['post'][0])):
        got = number(fd.get(key)) if key in fd else None
        rep.check(None if got is None else near(got, want), 'objects', loc, 'font %s: %s is %s, the font has %s' % (n, key, got, want))
    flags = number(fd.get('Flags')) if 'Flags' in fd else None
    rep.check(None if flags is None else bool(flags & 64) == (t['post'][0] != 0) and bool(flags & 1) == bool(t['post'][1]), 'objects', loc, 'font %s: the flags are %s' % (n, flags))
    ff = follow(fd.get('FontFile2'))
    data = constant(ff.get('__stream__')) if ff else None
    rep.check(None if data is None else data == t['data'], 'objects', loc, 'font %s: the file is %r' % (n, data))
    length = number(ff.get('Length1')) if ff else None
    rep.check(None if length is None else length == len(t['data']), 'objects', loc, 'font %s: the length of the file is %s' % (n, length))
    tu = follow(d0.get('ToUnicode'))
    data = constant(tu.get('__stream__')) if tu else None
    if data is None:
        rep.unk('objects', loc, 'font %s: the character map' % n)
        return
    data = text(data)
    for g in sorted(set(t['gids'][x] for x in t['cmap'].values())):
        chars = {chr(c).encode('utf-16-be').hex().upper() for c, name in t['cmap'].items() if t['gids'][name] == g}
        got = {m.upper() for k, m in re.findall(r'<([0-9A-Fa-f]{4})>\s*<([0-9A-Fa-f]+)>', data.split('endcodespacerange')[-1]) if int(k, 16) == g}
        rep.check(bool(got) and got <= chars, 'objects', loc, 'font %s: glyph %d stands for %s in the character map, for %s in the font' % (n, g, sorted(got), sorted(chars)))
    counts = re.findall(r'(\d+)\s+beginbfchar(.*?)endbfchar', data, re.S)
    rep.check(all(int(k) == len(re.findall('<[^>]*>', body)) / 2 for k, body in counts) or None, 'objects', loc, 'font %s: the number of entries of the character map' % n)


def flat(ch, t):
    if t is None:
        return None
    if t[0] == 'tuple':
        return [unv(x) for x in t[1]]
    if t[0] == 'list':
        xs = ch.st.heap.get(('L', t[1]))
        return [unv(x) for x in xs] if xs is not None and not any(x[0] in ('star', 'unk') for x in xs) else None
    return None


def array(ch, t):
    """glyph -> width of a width array"""
    xs = flat(ch, t)
    if xs is None:
        return None
    out, i = {}, 0
    while i < len(xs):
        a = number(xs[i])
        if a is None or i + 1 >= len(xs):
            return None
        ys = flat(ch, xs[i + 1])
        if ys is not None:
            for j, y in enumerate(ys):
                out[a + j] = number(y)
            i += 2
            continue
        b = number(xs[i + 1])
        if b is None or i + 2 >= len(xs):
            return None
        for j in range(int(a), int(b) + 1):
            out[j] = number(xs[i + 2])
        i += 3
    return out
