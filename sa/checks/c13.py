"""C13: proportions of images.  Every (width, height) pair that reaches the drawing operation is computed as a pair of
Laurent polynomials over the inputs; the ratio must be that of the pixel dimensions of the very image drawn."""
from .common import *
from .objs import *
from .c08 import focus
from .c11 import strip_ver
from ..flow import reach

TECHNIQUE = ('value-flow analysis of the places that create or draw images: width * pixel height - height * pixel width is '
             'normalised as a Laurent polynomial and must vanish on every path')


def run(prog, rep):
    rep.rule('page', 'a missing width or height of a page image is derived from the other one and the pixel dimensions; given ones are used')
    rep.rule('part', 'the width and height of an image laid out in a box, group or cell have the ratio of its pixel dimensions')
    rep.rule('pass', 'the dimensions laid out are the ones drawn')
    rep.rule('matrix', 'the drawing matrix scales the unit square to width times height without rotation or skew')
    rep.rule('pixels', 'width and height of an image are the third and second field of the frame header')
    rep.section('page', page, prog, rep)
    rep.section('part', laid_out, prog, rep)
    rep.section('pass', passing, prog, rep)
    rep.section('matrix', matrix, prog, rep)
    rep.section('pixels', pixels, prog, rep)


def strip_round(t):
    """rounding to some decimals keeps the proportion up to the precision of the output"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'fn' and t[1] == 'round' and len(t[2]) == 2 and is_num_c(t[2][1]) and t[2][1][2] >= 1:
            return strip_round(t[2][0])
        return tuple(strip_round(x) for x in t)
    return t


def pix(img, a):
    return ('attr', img, a, 0)


def norm(t):
    t = strip_ver(t)
    if contains(t, ('fn', 'round')) or True:
        t = rebuild(t)
    return t


def rebuild(t):
    """polynomial normal form again after stripping"""
    if t[0] == 'poly':
        r = C(0)
        for m, c in t[1]:
            x = ('poly', (((), c),)) if False else C(float(c)) if c.denominator != 1 else C(int(c))
            x = from_poly({(): c})
            for a, e in m:
                a = rebuild(a)
                for _ in range(abs(e)):
                    x = p_mul(x, a) if e > 0 else p_mul(x, p_inv(a))
            r = p_add(r, x)
        return r
    if t[0] == 'fn' and t[1] == 'round' and len(t[2]) == 2 and is_num_c(t[2][1]) and t[2][1][2] >= 1:
        return rebuild(t[2][0])
    return t


def opaque_in(t):
    return any(x[0] in ('call', 'unk', 'head', 'out') or x[0] == 'sym' and str(x[1]).startswith('$') for x in subterms(t))


def ratio(w, h, img):
    """True / False / None"""
    if w is None or h is None:
        return None
    w, h, img = norm(w), norm(h), strip_ver(img)
    d = p_sub(p_mul(w, pix(img, 'height')), p_mul(h, pix(img, 'width')))
    if poly_const(d) == 0:
        return True
    if opaque_in(d) or not is_known(d):
        return None
    return False


def page(prog, rep):
    fi = prog.func('PDF.add_image')
    W, H = ('sym', 'width'), ('sym', 'height')
    IMG = ('sym', 'pdf_image')
    for a in fi.args[1:]:
        if a not in ('width', 'height') and 'im' in a:
            IMG = ('sym', a)
            break
    for w in (True, False):
        for h in (True, False):
            st = State()
            st.facts[('isnone', W)] = not w
            st.facts[('isnone', H)] = not h
            eng = Engine(prog, opaque={'PDFPage.add_image', 'PDFBase.add', 'PDFBase.__getitem__'})
            parts = eng.analyse(fi, state=st)
            rep.functions |= eng.analysed
            for p in parts:
                if p.raised:
                    rep.unk('page', fi.loc(), 'raises when ' + p.where())
                    continue
                calls = [e for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0] == 'PDFPage.add_image']
                if len(calls) != 1:
                    rep.unk('page', fi.loc(), 'the image is drawn %d times' % len(calls))
                    continue
                e = calls[0]
                args = dict(e.a[2])
                aw, ah = args.get('width'), args.get('height')
                case = 'width %s and height %s' % ('given' if w else 'missing', 'given' if h else 'missing')
                for g, a, s in ((w, aw, W), (h, ah, H)):
                    if g and a is not None:
                        d = p_sub(norm(a), s)
                        ok = poly_const(d) == 0
                        rep.check(True if ok else None if opaque_in(d) else False, 'page', e.loc,
                                  'with %s the %s drawn is %s' % (case, s[1], show(a)))
                if not (w and h):
                    rep.check(ratio(aw, ah, IMG), 'page', e.loc, 'with %s the image is drawn as %s by %s' % (case, show(aw), show(ah)))
    fi = prog.func('PDF.image')
    eng = Engine(prog, opaque={'PDF.add_image', 'PDFImage.__init__'})
    for p in eng.analyse(fi):
        for e, _ in all_events(p.trace):
            if e.kind == 'call' and e.a[0] == 'PDF.add_image':
                args = dict(e.a[2])
                for k in ('width', 'height'):
                    v = args.get(k)
                    rep.check(True if v == ('sym', k) else None if v is None or opaque_in(v) else False, 'page', e.loc,
                              'PDF.image passes %s as %s' % (show(v) if v else None, k))


def laid_out(prog, rep):
    makers = {f for f in prog.all_functions() if mentions(f, {'pdf_image'}) and f.cls and f.cls.name != 'PDF'}
    roots = []
    for q in ('PDFContentPart.process_image', 'PDFTable.process_image'):
        try:
            roots.append(prog.func(q))
        except AnchorMissing:
            rep.unk('part', q, 'not found')
    covered = set()
    for r in roots:
        covered |= reach(prog, r)
    for f in makers:
        if f not in covered and f not in roots:
            callers_ = [g for g in prog.all_functions() if g.module is f.module and f in reach(prog, g) and g is not f]
            for g in callers_[:3] or [f]:
                roots.append(g)
    n = 0
    for fi in roots:
        eng = Engine(prog, opaque=focus(prog, fi, {'pdf_image'}) | {'PDFImage.__init__', 'PDFTable.run', 'PDFContent.run', 'PDFText.run'})
        parts = eng.analyse(fi)
        rep.functions |= eng.analysed
        for p in parts:
            if p.raised:
                continue
            for e, chain in all_events(p.trace):
                if e.kind != 'append':
                    continue
                s = chain[-1][1] if chain else p.state
                d = e.a[1]
                if d[0] != 'dict':
                    continue
                img = eng.dict_get(d, C('pdf_image'), ('sym', '$none'), s)
                if img == ('sym', '$none'):
                    continue
                w = eng.dict_get(d, C('width'), ('sym', '$none'), s)
                h = eng.dict_get(d, C('height'), ('sym', '$none'), s)
                n += 1
                if NONE in (w, h) or ('sym', '$none') in (w, h):
                    # one missing dimension is derived when drawn
                    rep.ok('part', e.loc)
                    continue
                rep.check(ratio(w, h, img), 'part', e.loc, 'image laid out as %s by %s when %s' % (
                    show(w)[:120], show(h)[:120], p.where()[:200]))
    rep.count('laid out images (paths)', n)
    if not n:
        rep.unk('part', 'package', 'no construct lays out images')


def passing(prog, rep):
    fi = prog.func('PDF._add_parts')
    eng = Engine(prog, opaque={'PDF.add_image', 'PDF._add_text'})
    parts = eng.analyse(fi)
    rep.functions |= eng.analysed
    n = 0
    for p in parts:
        for e, chain in all_events(p.trace):
            if e.kind == 'call' and e.a[0] == 'PDF.add_image' and chain:
                args = dict(e.a[2])
                img = args.get('pdf_image')
                if img is None or img[0] not in ('idx', 'get'):
                    rep.unk('pass', e.loc, 'image %s' % (show(img) if img else None))
                    continue
                part = img[1]
                n += 1
                for k in ('width', 'height'):
                    v = args.get(k)
                    ok = v is not None and v[0] in ('idx', 'get') and v[1] == part and v[2] == C(k)
                    rep.check(True if ok else None if v is None or opaque_in(v) else False, 'pass', e.loc,
                              'the %s drawn for a laid out image is %s' % (k, show(v) if v else None))
    if not n:
        rep.unk('pass', fi.loc(), 'no image is drawn')


def matrix(prog, rep):
    fi = prog.func('PDFPage.add_image')
    st = State()
    eng = Engine(prog, opaque={'PDFBase.add'})
    W, H = ('sym', 'width'), ('sym', 'height')
    n = 0
    for p in eng.analyse(fi, state=st):
        if p.raised:
            continue
        for e, _ in all_events(p.trace):
            vs = [v for v in e.a if isinstance(v, tuple) and v and v[0] == 'cat'] if e.kind in ('setitem', 'append') else []
            for v in vs:
                ops = operands(v, 'cm')
                if ops is None or len(ops) < 6:
                    continue
                n += 1
                a, b, c, d = [norm(x) if isinstance(x, tuple) else x for x in ops[-6:-2]]
                for x, want, name in ((a, W, 'horizontal scale'), (d, H, 'vertical scale'), (b, C(0), 'skew'), (c, C(0), 'skew')):
                    dd = p_sub(x, want)
                    rep.check(True if poly_const(dd) == 0 else None if opaque_in(dd) else False, 'matrix', e.loc,
                              '%s of the image matrix is %s' % (name, show(x)))
    if not n:
        rep.unk('matrix', fi.loc(), 'no matrix found')


def operands(v, op):
    """operands before the first operator op in a template, in order"""
    stack, word = [], []

    def flush():
        if not word:
            return None
        if len(word) == 1 and isinstance(word[0], tuple):
            stack.append(word[0])
        elif all(isinstance(x, str) for x in word):
            w = ''.join(word)
            if w == op:
                word.clear()
                return True
            try:
                stack.append(C(float(w)))
            except ValueError:
                if w.startswith('/'):
                    stack.append(C(w))
                else:
                    stack.clear()
        else:
            stack.append(('unk', 'mixed'))
        word.clear()
        return None
    for p in v[2]:
        if p[0] == 'lit':
            t = p[1] if isinstance(p[1], str) else p[1].decode('latin-1')
            for ch in t:
                if ch.isspace():
                    if flush():
                        return stack
                else:
                    word.append(ch)
        elif p[0] == 'hole':
            word.append(p[1])
        else:
            return None
    return stack if flush() else None


def offsets(fmt):
    """byte offset -> field index of a big endian format"""
    import struct
    if not fmt or fmt[0] not in '>!':
        return None
    out, pos = {}, 0
    for i, ch in enumerate(fmt[1:]):
        out[i] = (pos, struct.calcsize('>' + ch))
        pos += struct.calcsize('>' + ch)
    return out


def pixels(prog, rep):
    fi = prog.func('PDFImage.parse_jpg')
    eng = Engine(prog, opaque=set())
    parts = eng.analyse(fi)
    rep.functions |= eng.analysed
    n = 0
    for p in parts:
        if p.raised:
            continue
        for name, off in (('width', 3), ('height', 1)):
            v = p.attr(('sym', fi.args[0]), name)
            while v is not None and v[0] == 'fn' and v[1] == 'int' and len(v[2]) == 1:
                v = v[2][0]
            if v is None or v[0] != 'idx' or not is_num_c(v[2]):
                rep.unk('pixels', fi.loc(), '%s is %s' % (name, show(v) if v else None))
                continue
            src = v[1]
            fmt = next((x[2] for x in subterms(src) if x[0] == 'c' and x[1] == 'str' and str(x[2])[:1] in '>!'), None)
            if src[0] in ('call', 'fn'):
                fmt = next((x[2] for x in src[2] if x[0] == 'c' and x[1] == 'str'), None)
            offs = offsets(fmt) if fmt else None
            if offs is None or v[2][2] not in offs:
                rep.unk('pixels', fi.loc(), '%s is read as %s' % (name, show(v)[:80]))
                continue
            n += 1
            rep.check(offs[v[2][2]] == (off, 2), 'pixels', fi.loc(),
                      'the %s of an image is read from byte %d of the frame header instead of the two bytes at %d' % (name, offs[v[2][2]][0], off))
            o = p.attr(('sym', fi.args[0]), 'pdf_obj')
            if o is not None and o[0] == 'dict':
                x = eng.dict_get(o, C(name.capitalize()), ('sym', '$none'), p.state)
                y = p.attr(('sym', fi.args[0]), name)
                rep.check(True if x == y else None if opaque_in(x) and not (x[0] == 'fn') else False, 'pixels', fi.loc(),
                          'the image dictionary declares %s as %s' % (name, show(x)[:80]))
    rep.count('paths of parse_jpg', n)
