"""C23: everything laid out is drawn exactly once, in the right stacking order."""
import ast
from .common import *
from .c21 import Maker, bare, opaque_set
from .c22 import unv

TECHNIQUE = ('path enumeration over every function that runs a layout: number and order of the drawing calls for what the run produced, per path; '
             'symbolic evaluation of what a trial layout keeps and discards; constant folding of the graphics stream over all short sequences of fills and lines')

SELF = ('sym', 'self')
LAYOUT = ('PDFText', 'PDFTextBase', 'PDFTable', 'PDFContent')
LISTS = ('fills', 'lines', 'parts')


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('drawn', 'what a layout run produced is drawn on the page exactly once, fills before lines before parts')
    rep.rule('parts', 'every part is drawn as what it is, in order')
    rep.rule('paragraph', 'backgrounds and underlines of a paragraph come before its text, and both are written once')
    rep.rule('graphics', 'every fill and line is written once, in order, with its own colour, width and style')
    rep.rule('collected', 'what an inner layout produced is handed to the outer one exactly once, unless it was only measured')
    rep.rule('discard', 'an abandoned layout leaves nothing behind and takes nothing else with it')
    rep.rule('stream', 'nothing added to a page replaces what was added before')
    for q in ('PDF._table', 'PDF._content', 'PDFDocument._add_content'):
        rep.section('drawn', drawn, prog, rep, q)
    rep.section('drawn', text_drawn, prog, rep)
    rep.section('parts', parts_drawn, prog, rep)
    rep.section('paragraph', add_text, prog, rep)
    rep.section('paragraph', paragraph, prog, rep)
    rep.section('graphics', graphics, prog, rep)
    rep.section('collected', collected, prog, rep)
    rep.section('collected', group, prog, rep)
    rep.section('discard', reset, prog, rep)
    rep.section('discard', fresh_run, prog, rep)
    rep.section('collected', row, prog, rep)
    rep.section('stream', page_add_check, prog, rep)
    rep.section('stream', joined, prog, rep)


# ------------------------------------------------------------------ helpers
def is_run(e):
    """layout run: the object that is run, or None"""
    if e.kind == 'call' and e.a[0].split('.')[-1] == 'run' and e.a[0].split('.')[0] in LAYOUT:
        return e.a[1]
    if e.kind == 'mcall' and e.a[1] == 'run':
        return e.a[0]
    return None


def page_add(e):
    """what is added to a page's contents"""
    if e.kind == 'call' and e.a[0] == 'PDFPage.add':
        return e.a[2][0][1] if e.a[2] else None
    if e.kind in ('mut', 'mcall') and e.a[1] == 'add' and e.a[2] and unv(e.a[0])[0] in ('attr', 'idx', 'sym', 'call'):
        b = unv(e.a[0])
        if b[0] == 'attr' and b[2] == 'page' or b[0] == 'idx':
            return e.a[2][0]
    return None


def flat_list(st, t, depth=0):
    """items of a list term; inner ('star', x) for everything of x"""
    if depth > 6:
        return None
    if t[0] == 'tuple':
        return list(t[1])
    if t[0] == 'fn' and t[1] in ('list', 'tuple', 'copy') and len(t[2]) == 1:
        r = flat_list(st, t[2][0], depth + 1)
        return [('star', t[2][0])] if r is None else r
    if t[0] == 'fn' and t[1] in ('add', 'concat', '+') and len(t[2]) == 2:
        a, b = (flat_list(st, x, depth + 1) or [('star', x)] for x in t[2])
        return a + b
    if t[0] == 'list':
        items = st.heap.get(('L', t[1]))
        if items is None:
            return None
        out = []
        for x in items:
            if x[0] in ('star', 'unk') and len(x) > 1 and isinstance(x[1], tuple):
                out.extend(flat_list(st, x[1], depth + 1) or [('star', x[1])])
            else:
                out.append(x)
        return out
    return [('star', t)]


def later(p, t, items):
    """what was put into a list after it was made"""
    out = list(items)
    for e, _ in all_events(p.trace):
        if e.kind == 'mut' and e.a[0] == t and e.a[1] == 'extend':
            out += flat_list(p.state, e.a[2][0]) or [('star', e.a[2][0])]
        elif e.kind in ('mut', 'append', 'setitem', 'del') and e.a[0] == t:
            return None
    return out


def graphics_of(p, t):
    """(object, lists) whose fills and lines make up the graphics stream t"""
    if t[0] != 'call' or t[1] != 'create_graphics':
        return None
    arg = t[2][0] if t[2] else t[3][0][1] if t[3] else None
    if arg is None:
        return None
    items = flat_list(p.state, arg)
    if items is not None and arg[0] not in ('list', 'tuple'):
        items = later(p, arg, items)
    if items is None:
        return None
    out = []
    for x in items:
        if x[0] == 'star' and isinstance(x[1], tuple) and unv(x[1])[0] == 'attr':
            y = unv(x[1])
            out.append((y[1], y[2]))
        else:
            return None
    return out


def opaque_for(prog, root, services):
    """helpers of the class are inlined, services are not"""
    keep = {root.qual}
    for c in {root.cls.name, 'PDF'}:
        for m in prog.cls(c).methods.values():
            if m.name not in services and m.name != '__init__':
                keep.add(m.qual)
        for g in list(prog.cls(c).getters.values()) + list(prog.cls(c).setters.values()):
            keep.add(g.qual)
    out = opaque_set(prog, keep)
    out |= {g.qual for g in prog.all_functions() if g.cls is None and g.name in ('create_graphics', 'get_paragraph_stream')}
    return out - {g.qual for c in ('PDFPage',) for g in list(prog.cls(c).getters.values()) + list(prog.cls(c).setters.values())}


SERVICES = {'_content', '_text', '_table', 'content', 'text', 'table', 'image', 'add_image', 'output', 'add_font', '_add_text', '_used_font', '_add_or_get_font',
            '_create_content', '_create_text', '_create_table', '_add_parts', 'create_image', 'add_page', '_position_and_size', 'setup_page', '_process_footnotes',
            '_get_footnotes_obj', '_check_footnotes', '_check_footnote', '_set_running_sections', '_traverse_document_footnotes', 'run', '_process_section',
            '_init_text', '_default_content_style', '_default_paragraph_style'}


def of_object(t, name):
    """object whose attribute `name` t is"""
    t = unv(t)
    if t[0] == 'attr' and t[2] == name:
        return t[1]
    return None


# ------------------------------------------------------------------ drawing what a run produced
def drawn(prog, rep, q):
    root = prog.func(q)
    eng = Engine(prog, opaque=opaque_for(prog, root, SERVICES - {root.name}))
    parts = eng.analyse(root)
    rep.functions |= eng.analysed
    for p in parts:
        if p.raised:
            continue
        rep.count('paths of drawing functions', 1)
        where = root.loc()
        layouts = []          # [object, drawn]
        state = {}
        for e, ctx in all_events(p.trace):
            o = is_run(e)
            if o is not None:
                o = unv(o)
                if ctx:
                    rep.unk('drawn', e.loc, 'layout runs in a loop')
                    state = None
                    break
                # what an earlier run of the same object produced is abandoned
                d = state.get(o)
                if d is not None and (d['graphics'] or d['parts']):
                    rep.bad('drawn', e.loc, 'a layout that was drawn is run and drawn again')
                state[o] = {'graphics': 0, 'parts': 0, 'loc': e.loc}
                continue
            if e.kind == 'call' and e.a[0] in ('PDF._content', 'PDF._table', 'PDF._text'):
                c = unv(e.a[2][0][1])
                d = state.get(c)
                if d is not None and (d['graphics'] or d['parts']):
                    rep.bad('drawn', e.loc, 'a layout is drawn again after it was drawn')
                # laid out (again) and drawn there
                state[c] = {'graphics': 1, 'parts': 1, 'loc': e.loc}
                continue
            g = page_add(e)
            if g is None and e.kind == 'call' and e.a[0] == 'PDFPage.add':
                continue
            if g is not None:
                objs = graphics_of(p, g)
                if objs is None:
                    if g[0] == 'call' and g[1] == 'create_graphics':
                        rep.unk('drawn', e.loc, 'graphics of %s' % show(g)[:60])
                        state = None
                        break
                    continue
                names = [n for _, n in objs]
                for o in {x for x, _ in objs}:
                    d = state.get(o)
                    if d is None:
                        rep.unk('drawn', e.loc, 'graphics of %s' % show(o)[:60])
                        continue
                    mine = [n for x, n in objs if x == o]
                    if set(mine) - set(LISTS):
                        rep.unk('drawn', e.loc, 'graphics %s' % mine)
                        continue
                    d.setdefault('seen', []).extend(mine)
                    if d['parts']:
                        rep.bad('drawn', e.loc, 'fills and lines are drawn over text and images')
                    d['graphics'] = 1
                continue
            if e.kind == 'call' and e.a[0] == 'PDF._add_parts':
                o = of_object(e.a[2][0][1], 'parts')
                d = state.get(o)
                if d is None:
                    rep.unk('drawn', e.loc, 'parts of %s' % show(e.a[2][0][1])[:60])
                    continue
                if not d['graphics']:
                    rep.bad('drawn', e.loc, 'text and images are drawn before fills and lines')
                d['parts'] += 1
        if state is None:
            continue
        if not state:
            rep.unk('drawn', where, 'no layout run')
        for o, d in state.items():
            seen = d.get('seen')
            if seen is not None:
                rep.check(sorted(seen) == ['fills', 'lines'], 'drawn', d['loc'], '%s are drawn of what the layout produced' % ' and '.join(seen))
                if sorted(seen) == ['fills', 'lines']:
                    rep.check(seen == ['fills', 'lines'], 'drawn', d['loc'], 'lines are drawn before fills')
            elif not d['graphics']:
                rep.bad('drawn', d['loc'], 'fills and lines of a layout are not drawn (%s)' % p.where()[:80])
            rep.check(d['parts'] == 1, 'drawn', d['loc'], 'text and images of a layout are drawn %d times (%s)' % (d['parts'], p.where()[:80]))


def text_drawn(prog, rep):
    root = prog.func('PDF._text')
    eng = Engine(prog, opaque=opaque_for(prog, root, SERVICES - {root.name}))
    for p in eng.analyse(root):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        ran = None
        count = 0
        for e, ctx in all_events(p.trace):
            o = is_run(e)
            if o is not None:
                ran = unv(o)
                count = 0
            if e.kind == 'call' and e.a[0] == 'PDF._add_text':
                count += 1
                for k, v in e.a[2]:
                    src, key = entry_of(v)
                    if key is None:
                        continue
                    rep.check(key == k, 'drawn', e.loc, '%s of the paragraph drawn is its %s' % (k, key))
                    if src is not None and ran is not None and src != ran:
                        rep.unk('drawn', e.loc, 'result of %s' % show(src)[:50])
        if ran is None:
            rep.unk('drawn', root.loc(), 'no run')
        else:
            rep.check(count == 1, 'drawn', root.loc(), 'a paragraph that was laid out is drawn %d times' % count)


def entry_of(v):
    v = unv(v)
    if v[0] in ('get', 'idx') and is_c(v[2]):
        b = v[1]
        if b[0] == 'attr' and b[2] == 'result':
            return b[1], v[2][2]
        return None, v[2][2]
    return None, None


def parts_drawn(prog, rep):
    root = prog.func('PDF._add_parts')
    st = State()
    mk = Maker(st)
    tk = ('x', 'y', 'width', 'height', 'text_stream', 'graphics_stream', 'used_fonts', 'ids')
    ik = ('pdf_image', 'x', 'y', 'width', 'height')
    defs = []
    for i, ty in enumerate(('paragraph', 'image', 'paragraph', 'image', 'image')):
        defs.append((ty, {k: S('%s%d' % (k, i)) for k in (tk if ty == 'paragraph' else ik)}))
    ds = [mk.d([('type', C(ty))] + list(kv.items())) for ty, kv in defs]
    lst = mk.l(ds)
    eng = Engine(prog, opaque=opaque_for(prog, root, SERVICES - {root.name}))
    before = [st.heap[('D', d[1])] for d in ds]
    for p in eng.analyse(root, args={root.args[1]: lst}, state=st):
        if p.raised:
            rep.unk('parts', root.loc(), 'raises: %s' % p.where()[:80])
            continue
        rep.functions |= eng.analysed
        calls = [e for e, c in all_events(p.trace) if e.kind == 'call' and e.a[0] in ('PDF._add_text', 'PDF.add_image')]
        if any(e.kind == 'loop' for e in p.trace) or p.facts:
            spaces = [(e.a if isinstance(e.a, Loop) else e.a[0]).space for e in p.trace if e.kind == 'loop']
            wrong = [x for x in spaces if isinstance(x, tuple) and (x[0] in ('reversed', 'set') or x[0] == 'fn' and x[1] in ('sorted', 'reversed', 'set')) and contains(x, lst)]
            rep.check(False if wrong else None, 'parts', root.loc(), 'parts are drawn in the order of %s' % (show(wrong[0])[:50] if wrong else '?'))
            continue
        rep.check(len(calls) == len(defs), 'parts', root.loc(), '%d of %d parts are drawn' % (len(calls), len(defs)))
        if len(calls) != len(defs):
            continue
        for (ty, kv), e in zip(defs, calls):
            rep.check(e.a[0] == ('PDF._add_text' if ty == 'paragraph' else 'PDF.add_image'), 'parts', e.loc, 'a part of type %s is drawn by %s' % (ty, e.a[0]))
            args = dict(e.a[2])
            for k, v in kv.items():
                if k in args and e.a[0] == ('PDF._add_text' if ty == 'paragraph' else 'PDF.add_image'):
                    rep.check(same_sym(args[k], v), 'parts', e.loc, '%s of a part of type %s is %s' % (k, ty, show(args[k])[:50]))


def same_sym(a, v):
    a = unv(a)
    if a == v:
        return True
    return False if a[0] in ('sym', 'c') else None


def add_text(prog, rep):
    root = prog.func('PDF._add_text')
    eng = Engine(prog, opaque=opaque_for(prog, root, SERVICES - {root.name}))
    for p in eng.analyse(root):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        n = 0
        for e, ctx in all_events(p.trace):
            g = page_add(e)
            if g is None:
                continue
            if ctx:
                rep.unk('paragraph', e.loc, 'in a loop')
                n += 1
                continue
            n += 1
            if g[0] == 'call' and g[1] == 'get_paragraph_stream':
                fn = prog.func('get_paragraph_stream')
                args = dict(zip(fn.args, g[2]))
                args.update(dict(g[3]))
                for k in fn.args:
                    if k in args and k in root.args:
                        rep.check(same_sym(args[k], S(k)), 'paragraph', e.loc, '%s of a paragraph drawn is %s' % (k, show(args[k])[:50]))
        rep.check(n == 1, 'paragraph', root.loc(), 'the contents of a paragraph are added to the page %d times' % n)
        loops = [e.a if isinstance(e.a, Loop) else e.a[0] for e in p.trace if e.kind == 'loop']
        for L in loops:
            sp = L.space if isinstance(L.space, tuple) else None
            if sp is None or not contains(unv(sp), S('used_fonts')):
                continue
            for s, sig in L.parts:
                used = [e for e, _ in all_events(s.trace[s.base:]) if e.kind == 'call' and e.a[0] == 'PDF._used_font']
                if any(f[0] == 'in' for f in s.facts):
                    rep.unk('drawn', root.loc(L.node), 'fonts under a condition')
                else:
                    rep.check(len(used) >= 1, 'drawn', root.loc(L.node), 'a font used by the paragraph is not registered with the page')


def paragraph(prog, rep):
    fi = prog.func('get_paragraph_stream')
    for g in ('sym', 'empty'):
        for t in ('sym', 'empty'):
            eng = Engine(prog)
            st = State()
            args = {'text_stream': S('text_stream') if t == 'sym' else C(''), 'graphics_stream': S('graphics_stream') if g == 'sym' else C('')}
            for k in ('text_stream', 'graphics_stream'):
                if k not in fi.args:
                    raise AnchorMissing(k)
                st.facts[('truthy', S(k))] = True
                st.facts[('eq', C(''), S(k))] = False
            for p in eng.analyse(fi, args=args, state=st):
                if p.raised or p.ret is None:
                    continue
                rep.functions |= eng.analysed
                if any(f not in st.facts for f in p.facts):
                    rep.unk('paragraph', fi.loc(), p.where()[:80])
                    continue
                flatp = cat_parts(p.ret) if p.ret[0] == 'cat' else [('lit', p.ret[2])] if is_c(p.ret) else None
                if flatp is None:
                    rep.unk('paragraph', fi.loc(), show(p.ret)[:80])
                    continue
                pos = {'text_stream': [], 'graphics_stream': []}
                for i, x in enumerate(flatp):
                    if x[0] == 'hole':
                        for k in pos:
                            if x[1] == S(k):
                                pos[k].append(i)
                            elif contains(x[1], S(k)):
                                pos[k] = None
                                break
                    if None in pos.values():
                        break
                if None in pos.values():
                    rep.unk('paragraph', fi.loc(), show(p.ret)[:80])
                    continue
                for k, on in (('text_stream', t), ('graphics_stream', g)):
                    if on == 'sym':
                        rep.check(len(pos[k]) == 1, 'paragraph', fi.loc(), '%s is written %d times (%s)' % (k, len(pos[k]), 'with' if g == t else 'alone'))
                if g == t == 'sym' and pos['text_stream'] and pos['graphics_stream']:
                    rep.check(max(pos['graphics_stream']) < min(pos['text_stream']), 'paragraph', fi.loc(), 'the text of a paragraph is written before its backgrounds and underlines')
                    balance(rep, fi, flatp, pos)


def balance(rep, fi, parts, pos):
    """the graphics state saved for the graphics is restored before the text"""
    depth = 0
    at = {}
    for i, x in enumerate(parts):
        if x[0] == 'lit':
            for w in x[1].split():
                depth += {'q': 1, 'Q': -1}.get(w, 0)
        for k, ps in pos.items():
            if i in ps:
                at[k] = depth
    rep.check(depth == 0 and at.get('text_stream') == 0, 'paragraph', fi.loc(), 'text of a paragraph is written within the coordinates of its graphics')


# ------------------------------------------------------------------ graphics stream, folded
FILLS = [('fc1', 0), ('fc2', 1)]
LINES = [('sc1', 1, 'solid'), ('sc2', 1, 'solid'), ('sc1', 2, 'dashed'), ('sc1', 2, 'solid'), ('sc2', 1, 'dotted'), ('sc1', 1, 'dashed')]


def dash_of(style):
    return style


def graphics(prog, rep):
    fi = prog.func('create_graphics')
    alphabet = [('fill', c, None, None) for c, _ in FILLS] + [('line', c, w, s) for c, w, s in LINES]
    seqs = [(a,) for a in alphabet] + [(a, b) for a in alphabet for b in alphabet]
    some = [alphabet[0], alphabet[1], alphabet[2], alphabet[4], alphabet[6]]
    seqs += [(a, b, c) for a in some for b in some for c in some]
    seqs.append(())
    undecided = 0
    dashes = {}
    outs = []
    for seq in seqs:
        st = State()
        mk = Maker(st)
        items = []
        for i, (ty, c, w, s) in enumerate(seq):
            b = 100 * (i + 1)
            if ty == 'fill':
                items.append(mk.d([('type', C('fill')), ('x', C(b + 1)), ('y', C(b + 2)), ('width', C(b + 3)), ('height', C(b + 4)), ('color', C(c))]))
            else:
                items.append(mk.d([('type', C('line')), ('x1', C(b + 1)), ('y1', C(b + 2)), ('x2', C(b + 3)), ('y2', C(b + 4)), ('color', C(c)), ('width', C(w)),
                                   ('style', C(s))]))
        eng = Engine(prog)
        parts = eng.analyse(fi, args={fi.args[0]: mk.l(items)}, state=st)
        rep.functions |= eng.analysed
        parts = [p for p in parts if not p.raised]
        if len(parts) != 1 or parts[0].ret is None or not is_c(parts[0].ret):
            undecided += 1
            continue
        outs.append((seq, parts[0].ret[2]))
    rep.count('graphics sequences folded', len(outs))
    if undecided:
        rep.unk('graphics', fi.loc(), '%d sequences not folded' % undecided)
    for seq, text in outs:
        if len(seq) == 1 and seq[0][0] == 'line':
            d = draw(text)
            if d and len(d) == 1 and d[0][0] == 'line':
                dashes[seq[0][2:]] = d[0][4]
    for seq, text in outs:
        got = draw(text)
        what = ', '.join('%s %s' % (a[0], ' '.join(str(x) for x in a[1:] if x is not None)) for a in seq) or 'nothing'
        if got is None:
            rep.unk('graphics', fi.loc(), 'stream %r' % text[:80])
            continue
        want = []
        for i, (ty, c, w, s) in enumerate(seq):
            b = 100 * (i + 1)
            if ty == 'fill':
                want.append(('fill', (b + 1, b + 2, b + 3, b + 4), c))
            else:
                want.append(('line', (b + 1, b + 2, b + 3, b + 4), c, w, dashes.get((w, s))))
        rep.check(got == want, 'graphics', fi.loc(), 'for %s the stream is %r' % (what, text[:150]), key='graphics')
    # the three line styles are different ones
    if len({dashes.get((1, s)) for s in ('solid', 'dashed', 'dotted')} - {None}) < 3 and all((1, s) in dashes for s in ('solid', 'dashed', 'dotted')):
        rep.bad('graphics', fi.loc(), 'two line styles are drawn the same')


def draw(text):
    """what a graphics stream paints"""
    fill = stroke = width = None
    cap, dash = '0', '[]0'
    stack, out, ops = [], [], []
    path = None
    toks = text.split()
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.startswith('fc'):
            fill = t
        elif t.startswith('sc'):
            stroke = t
        elif t == 'q':
            stack.append((fill, stroke, width, cap, dash))
        elif t == 'Q':
            if not stack:
                return None
            fill, stroke, width, cap, dash = stack.pop()
        elif t == 'w':
            width = num(ops[-1]) if ops else None
        elif t == 'J':
            cap = ops[-1] if ops else None
        elif t == 'd':
            dash = ' '.join(ops)
        elif t == 're':
            path = ('re', tuple(num(x) for x in ops[-4:]))
        elif t == 'm':
            path = ('m', tuple(num(x) for x in ops[-2:]))
        elif t == 'l':
            if not path:
                return None
            path = ('l', path[1] + tuple(num(x) for x in ops[-2:]))
        elif t in ('F', 'f'):
            if not path or path[0] != 're':
                return None
            out.append(('fill', path[1], fill))
            path = None
        elif t == 'S':
            if not path or path[0] != 'l':
                return None
            out.append(('line', path[1], stroke, width, (cap, dash)))
            path = None
        elif t.replace('.', '').replace('-', '').isdigit() or t[0] in '[]0123456789' or t[-1] in '[]':
            ops.append(t)
            i += 1
            continue
        else:
            return None
        ops = []
        i += 1
    return out if not stack else None


def num(x):
    try:
        v = float(x)
        return int(v) if v == int(v) else v
    except ValueError:
        return x


# ------------------------------------------------------------------ collecting inner layouts
def makes_layout(prog, fi):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'run':
            return True
    return False


def collected(prog, rep):
    for cls, holder in (('PDFContentPart', ('attr', SELF, 'p', 0)), ('PDFTable', SELF)):
        c = prog.cls(cls)
        for m in c.methods.values():
            if m.name in ('run', '__init__'):
                continue
            img = any(isinstance(n, ast.Constant) and n.value == 'pdf_image' for n in ast.walk(m.node))
            if not (makes_layout(prog, m) or img):
                continue
            modes = (True, False) if 'add_parts' in m.args else (None,)
            for mode in modes:
                rep.section('collected', collect, prog, rep, m, holder, mode, img)


def takers(prog, m):
    """helpers through which a method hands on what was laid out"""
    out = set()
    for g in m.cls.methods.values():
        if g is m or makes_layout(prog, g) or g.name in ('setup', 'reset', 'save_indexes', '__init__'):
            continue
        if any(isinstance(n, ast.Attribute) and n.attr in LISTS or isinstance(n, ast.Name) and n.id == 'getattr' for n in ast.walk(g.node)):
            out.add(g.qual)
    return out - {g.qual for g in m.cls.methods.values() if g.name.startswith(('process_', 'add_cell', 'add_row', 'add_elements', 'add_delayed'))}


def collect(prog, rep, m, holder, mode, img):
    keep = {m.qual} | takers(prog, m)
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    args = {'add_parts': C(mode)} if mode is not None else {}
    parts = eng.analyse(m, args=args)
    rep.functions |= eng.analysed
    for p in parts:
        if p.raised:
            continue
        evs = list(all_events(p.trace))
        runs = [(i, e, is_run(e)) for i, (e, c) in enumerate(evs) if is_run(e) is not None]
        runs = [(i, e, o) for i, e, o in runs if not (e.kind == 'call' and e.a[0].startswith('PDFContentPart'))]
        handed = {k: [] for k in LISTS}
        for i, (e, c) in enumerate(evs):
            if e.kind in ('append', 'mut') and unv(e.a[0])[0] == 'attr' and unv(e.a[0])[2] in LISTS and unv(unv(e.a[0])[1]) == holder:
                handed[unv(e.a[0])[2]].append((i, e))
            if e.kind == 'write' and e.a[1] in LISTS and unv(e.a[0]) == holder:
                handed[e.a[1]].append((i, e))
        if not runs:
            if img and not makes_layout(prog, m):
                image_part(rep, m, p, handed, mode)
            continue
        if len(runs) > 1:
            rep.unk('collected', m.loc(), '%d runs' % len(runs))
            continue
        i, e, o = runs[0]
        text = e.a[0].split('.')[0] in ('PDFText', 'PDFTextBase') if e.kind == 'call' else None
        if text is None:
            cls = eng.class_of(o)
            text = None if cls is None else cls.name in ('PDFText', 'PDFTextBase')
        if text is None and m.name == 'process_text':
            text = True
        if text is None:
            text = False if any(handed[k] for k in ('fills', 'lines')) else None
        if mode is False:
            for k in LISTS:
                rep.check(not handed[k], 'collected', handed[k][0][1].loc if handed[k] else m.loc(), '%s of an element that is only measured are kept' % k)
            continue
        if text:
            n = [(j, x) for j, x in handed['parts']]
            rep.check(len(n) == 1, 'collected', m.loc(), 'the result of a paragraph is handed on %d times (%s)' % (len(n), p.where()[:60]))
            if len(n) == 1:
                x = n[0][1]
                rep.check(True if n[0][0] > i else False, 'collected', x.loc, 'the result is handed on before the paragraph is laid out')
                if x.kind == 'append':
                    v = unv(x.a[1])
                    if v[0] == 'dict' or v[0] == 'call' or v[0] == 'attr':
                        rep.ok('collected', x.loc)
                    else:
                        rep.unk('collected', x.loc, show(v)[:60])
            continue
        if text is None:
            rep.unk('collected', m.loc(), 'run of %s' % show(o)[:60])
            continue
        for k in LISTS:
            got = []
            opaque = False
            for j, x in handed[k]:
                src = None
                if x.kind == 'mut' and x.a[1] == 'extend':
                    src = x.a[2][0]
                    if src[0] in ('list', 'tuple', 'fn'):
                        fl = flat_list(p.state, src)
                        if fl and len(fl) == 1 and fl[0][0] == 'star':
                            src = fl[0][1]
                elif x.kind == 'write':
                    fl = flat_list(p.state, x.a[2])
                    if fl is None or len(fl) != 2 or fl[0][0] != 'star' or fl[1][0] != 'star':
                        opaque = True
                        continue
                    src = fl[1][1]
                elif x.kind == 'append':
                    opaque = True
                    continue
                got.append((j, x, unv(src) if src is not None else None))
            if opaque:
                rep.unk('collected', m.loc(), '%s handed on one by one' % k)
                continue
            rep.check(len(got) == 1, 'collected', m.loc(), '%s of an inner layout are handed on %d times (%s)' % (k, len(got), p.where()[:60]))
            for j, x, src in got:
                if src is not None and src[0] == 'attr' and src[1] == unv(o):
                    rep.check(src[2] == k, 'collected', x.loc, '%s of an inner layout become %s' % (src[2], k))
                else:
                    rep.unk('collected', x.loc, '%s from %s' % (k, show(src)[:60] if src else src))
                if j < i:
                    rep.bad('collected', x.loc, '%s are handed on before the inner layout is run' % k)


def image_part(rep, m, p, handed, mode):
    """an image that is finished is a part, one that is left over is none"""
    n = len(handed['parts'])
    left = leftover(p)
    if left is None:
        rep.unk('collected', m.loc(), 'image %s' % p.where()[:60])
        return
    if mode is False:
        rep.check(n == 0, 'collected', m.loc(), 'an image that is only measured is kept')
    else:
        rep.check(n == (0 if left else 1), 'collected', m.loc(), 'an image that %s is handed on %d times' % ('did not fit' if left else 'fits', n))


def leftover(p):
    """whether the return value says that something of the element remains"""
    r = p.ret
    if r is None:
        return None
    if r[0] == 'dict':
        for l in reversed(p.heap.get(('D', r[1]), ())):
            if l[0] == 'kv' and l[1] == C('delayed'):
                return False if l[2] == NONE else True if l[2][0] in ('dict', 'sym', 'attr') else None
    if r[0] == 'tuple' and len(r[1]) == 2 and is_c(r[1][1]):
        return not r[1][1][2]
    return None


def group(prog, rep):
    """a group is measured first and drawn only when everything fits"""
    m = prog.func('PDFContentPart.process_group')
    fe = prog.func('PDFContentPart.process_group_element')
    if 'add_element' not in fe.args:
        raise AnchorMissing('process_group_element: add_element')
    st = State()
    mk = Maker(st)
    els = [C('one'), C('two'), C('three')]
    el = mk.d([('group', mk.l(els))])
    eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
    parts = eng.analyse(m, args={m.args[1]: el}, state=st)
    rep.functions |= eng.analysed
    for p in parts:
        if p.raised:
            continue
        if any(e.kind == 'loop' for e in p.trace):
            rep.unk('collected', m.loc(), 'group')
            continue
        calls = [dict(e.a[2]) for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0] == fe.qual]
        flags = [a.get('add_element') for a in calls]
        items = [a.get(fe.args[1]) for a in calls]
        out = leftover(p)
        if out is None or any(f is None or not is_c(f) for f in flags):
            rep.unk('collected', m.loc(), 'group %s' % [show(f)[:20] for f in flags if f])
            continue
        draws = [x for x, f in zip(items, flags) if f[2]]
        if out:
            rep.check(not draws, 'collected', m.loc(), '%d elements of a group that does not fit are drawn' % len(draws))
        else:
            rep.check(draws == els, 'collected', m.loc(), 'of a group of 3 elements %s are drawn' % [show(x)[:20] for x in draws])
            first = next((i for i, f in enumerate(flags) if f[2]), 0)
            rep.check(items[:first] == els, 'collected', m.loc(), 'elements of a group are drawn before all of them are measured')


# ------------------------------------------------------------------ trial layouts
def reset(prog, rep):
    cls = prog.cls('PDFContentPart')
    names = {}
    save = prog.func('PDFContentPart.save_indexes')
    eng = Engine(prog, opaque=opaque_set(prog, {save.qual}))
    for p in eng.analyse(save):
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and e.a[0] == SELF:
                v = unv(e.a[2])
                if v[0] == 'fn' and v[1] == 'len' and v[2][0][0] == 'attr' and v[2][0][1] == ('attr', SELF, 'p', 0):
                    names[e.a[1]] = v[2][0][2]
        rep.functions |= eng.analysed
    rep.check(sorted(names.values()) == sorted(LISTS) or None, 'discard', save.loc(), 'the number of %s is remembered' % ', '.join(sorted(names.values())))
    for l in LISTS:
        if l not in names.values() and len(names) >= 2:
            rep.bad('discard', save.loc(), 'the number of %s already laid out is not remembered' % l)
    m = prog.func('PDFContentPart.reset')
    eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
    for p in eng.analyse(m):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        again = p.ret == C(True)
        cut = {}
        other = []
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and unv(e.a[0]) == ('attr', SELF, 'p', 0) and e.a[1] in LISTS:
                cut[e.a[1]] = e
            if e.kind == 'del' or e.kind == 'mut' and unv(e.a[0])[0] == 'attr' and unv(e.a[0])[2] in LISTS:
                other.append(e)
        if p.ret is None or not is_c(p.ret):
            rep.unk('discard', m.loc(), 'result of reset')
            continue
        if not again:
            for k, e in cut.items():
                rep.bad('discard', e.loc, '%s are discarded though the layout is kept' % k)
            continue
        for k in LISTS:
            e = cut.get(k)
            if e is None:
                rep.check(None if other else False, 'discard', m.loc(), '%s of an abandoned layout stay' % k)
                continue
            v = unv(e.a[2])
            if v[0] == 'slice' and v[1] == ('attr', ('attr', SELF, 'p', 0), k, 0) and v[2] in (NONE, C(0)) and v[4] in (NONE, C(1)):
                hi = v[3]
                if hi[0] == 'attr' and hi[1] == SELF and hi[2] in names:
                    rep.check(names[hi[2]] == k, 'discard', e.loc, '%s are cut at the number of %s' % (k, names[hi[2]]))
                else:
                    rep.check(None, 'discard', e.loc, '%s are cut at %s' % (k, show(hi)[:50]))
            elif v[0] == 'slice' and v[1][0] == 'attr' and v[1][2] in LISTS and v[1][2] != k:
                rep.bad('discard', e.loc, '%s are replaced by %s' % (k, v[1][2]))
            else:
                rep.unk('discard', e.loc, '%s = %s' % (k, show(v)[:60]))
    # the marks are set when a part starts, and whenever what is laid out so far is final
    for q, cond in (('PDFContentPart.setup', None), ('PDFContentPart.next_section', 'moved')):
        f = prog.func(q)
        eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
        for p in eng.analyse(f):
            if p.raised:
                continue
            rep.functions |= eng.analysed
            calls = [(i, e) for i, (e, _) in enumerate(all_events(p.trace)) if e.kind == 'call' and e.a[0] == save.qual]
            if cond == 'moved':
                moved = [i for i, (e, _) in enumerate(all_events(p.trace)) if e.kind == 'write' and e.a[0] == SELF and e.a[1] == 'min_y']
                if not moved:
                    continue
                rep.check(bool(calls), 'discard', f.loc(), 'moving to the next section does not protect what the last one holds')
            else:
                rep.check(True if calls else None, 'discard', f.loc(), 'marks when a part starts')
                if not calls:
                    attrs = {e.a[1] for e, _ in all_events(p.trace) if e.kind == 'write' and e.a[0] == SELF}
                    if not attrs & set(names):
                        rep.bad('discard', f.loc(), 'a part starts without remembering what was laid out before it')


def fresh_run(prog, rep):
    """each run starts with nothing; a cancelled table leaves nothing"""
    for q, inner in (('PDFContent.run', 'PDFContentPart.run'), ('PDFTable.run', 'PDFTable.add_row')):
        f = prog.func(q)
        eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
        for p in eng.analyse(f):
            if p.raised:
                continue
            rep.functions |= eng.analysed
            new = {}
            started = False
            for e, ctx in all_events(p.trace):
                if e.kind == 'write' and e.a[0] == SELF and e.a[1] in LISTS and not ctx:
                    new.setdefault(e.a[1], []).append((started, e, empty(p, e)))
                if e.kind == 'call' and e.a[0] == inner:
                    started = True
            for k in LISTS:
                ws = new.get(k, [])
                first = [x for x in ws if not x[0]]
                cleared = any(e.kind == 'mut' and e.a[1] == 'clear' and unv(e.a[0]) == ('attr', SELF, k, 0) for e, _ in all_events(p.trace))
                if not first:
                    rep.check(None if cleared else False, 'discard', f.loc(), '%s of the run before are still there when a run starts' % k)
                else:
                    rep.check(first[0][2], 'discard', first[0][1].loc, '%s start with something in them' % k)
            if q == 'PDFTable.run':
                cancelled(rep, f, p, new)


def empty(p, e):
    v = e.a[2]
    if v[0] == 'list':
        # contents when written: nothing was put into the literal
        return True if literal_empty(e) else None
    if v[0] == 'tuple':
        return not v[1]
    return None


def literal_empty(e):
    n = e.node
    for x in ast.walk(n) if n is not None else ():
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
            v = x.value
            vs = v.elts if isinstance(v, ast.Tuple) else [v]
            return all(isinstance(y, ast.List) and not y.elts or isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'list' and not y.args for y in vs)
    return True


def cancelled(rep, f, p, new):
    """on paths where the first row was given up: no drawing, nothing kept"""
    flag = None
    for fct, v in p.facts.items():
        if fct[0] == 'eq' and any(is_c(x) and x[2] == 'cancel' for x in fct[1:]) and v:
            flag = True
    # the loop over rows ended with a given up row when no borders are drawn afterwards
    borders = [e for e, c in all_events(p.trace) if e.kind == 'call' and e.a[0].endswith('process_borders')]
    ended = [e for e, c in all_events(p.trace) if e.kind == 'loop']
    ran = [e for e, c in all_events(p.trace) if e.kind == 'call' and e.a[0].endswith('add_row')]
    if borders or not ended or not ran and not flag:
        return
    for k in LISTS:
        late = [x for x in new.get(k, []) if x[0]]
        rep.check(True if late else False, 'discard', f.loc(), '%s of a table that was given up stay' % k)


def row(prog, rep):
    """lines and fills of a table row"""
    f = prog.func('PDFTable.add_row')
    eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
    for p in eng.analyse(f):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        cancel = p.ret == C('cancel')
        ext = 0
        for e, ctx in all_events(p.trace):
            if e.kind == 'mut' and unv(e.a[0]) == ('attr', SELF, 'lines', 0) and e.a[1] == 'extend':
                ext += 1
        if not cancel and p.ret is not None and is_c(p.ret):
            rep.check(ext == 1, 'collected', f.loc(), 'the horizontal lines of a row are collected %d times' % ext)
        for e in p.trace:
            if e.kind != 'loop':
                continue
            L = e.a if isinstance(e.a, Loop) else e.a[0]
            for s, sig in L.parts:
                own = [x for x, _ in all_events(s.trace[s.base:])]
                kept = [x for x in own if x.kind == 'append' and unv(x.a[0]) == ('attr', SELF, 'fills', 0)]
                gone = [x for x in own if x.kind in ('mut', 'mcall') and x.a[1] == 'pop' and unv(x.a[0]) == ('attr', SELF, 'fills_mem', 0) or
                        x.kind == 'del' and contains(unv(x.a[0]), ('attr', SELF, 'fills_mem', 0))]
                moved = any(x.kind == 'write' and x.a[0] == SELF and x.a[1] == 'fills_mem' for x, _ in all_events(p.trace))
                if kept or gone:
                    rep.check(None if moved else len(kept) == 1 and len(gone) == 1, 'collected', f.loc(L.node),
                              'a cell fill is collected %d times and put aside %d times' % (len(kept), len(gone)))
                    continue
                if not any(x.kind == 'append' and unv(x.a[0]) == ('attr', SELF, 'fills', 0) for s2, _ in L.parts for x, _ in all_events(s2.trace[s2.base:])):
                    continue
                # kept for the rows that follow: only when it is to be added later and the row is finished
                waits = [v for fct, v in s.facts.items() if contains(fct[1], C('add_later'))]
                rep.check(any(waits) if waits else None, 'collected', f.loc(L.node), 'a cell fill is put aside though its cell ends here')
                if p.ret == C('interrupt') and waits:
                    ends = [fct for fct, v in s.facts.items() if fct in p.facts and p.facts[fct] != v]
                    rep.check(bool(ends), 'collected', f.loc(L.node), 'the fill of a cell that goes on is lost when the page ends')


# ------------------------------------------------------------------ contents of a page
def page_add_check(prog, rep):
    fi = prog.func('PDFPage.add')
    eng = Engine(prog)
    for p in eng.analyse(fi):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        sets = [e for e, _ in all_events(p.trace) if e.kind == 'setitem' and '__stream__' in show(e.a[0])]
        other = [e for e, _ in all_events(p.trace) if e.kind in ('append', 'mut', 'mcall') and '__stream__' in show(e.a[0])]
        if len(sets) != 1:
            rep.check(None if other else False, 'stream', fi.loc(), 'content is stored %d times' % len(sets))
            continue
        e = sets[0]
        key = unv(e.a[1])
        after = None
        for w, _ in all_events(p.trace):
            if w.kind == 'write' and w.a[0] == SELF:
                after = (w.a[1], unv(w.a[2]), w)
                if key == ('attr', SELF, w.a[1], 0):
                    d = poly_const(p_sub(after[1], key))
                    rep.check(None if d is None else d > 0, 'stream', w.loc, 'the next key is %s' % show(after[1])[:50])
                    break
                d = poly_const(p_sub(after[1], key))
                if d is not None and contains(key, ('attr', SELF, w.a[1], 0)) and contains(after[1], ('attr', SELF, w.a[1], 0)):
                    rep.check(d >= 0 and poly_const(p_sub(after[1], ('attr', SELF, w.a[1], 0))) > 0, 'stream', w.loc, 'the next key is %s' % show(after[1])[:50])
                    break
        else:
            if key[0] == 'fn' and key[1] == 'len' and '__stream__' in show(key):
                rep.ok('stream', e.loc)
            elif key[0] in ('attr', 'c'):
                rep.bad('stream', e.loc, 'what is added to a page is always stored under the key %s' % show(key))
            else:
                rep.unk('stream', e.loc, 'key %s' % show(key)[:50])
        v = unv(e.a[2])
        rep.check(True if contains(v, S('content')) else False if is_known(v) else None, 'stream', e.loc, 'what is stored is %s' % show(v)[:50])


def joined(prog, rep):
    fi = prog.func('parse_stream')
    st = State()
    mk = Maker(st)
    inner = mk.d([])
    st.heap[('D', inner[1])] = tuple(('kv', C(i), C(b)) for i, b in enumerate((b'one ', b'two ', b'three')))
    obj = mk.d([('__stream__', inner), ('Filter', C(b'/X'))])
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual})
    for p in eng.analyse(fi, args={fi.args[0]: obj}, state=st):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        for e, _ in all_events(p.trace):
            if e.kind == 'call' and e.a[0] == 'encode_stream':
                v = e.a[2][0][1]
                if v[0] == 'fn' and v[1] == 'join' and any(x[0] in ('set', 'reversed') or x[0] == 'fn' and x[1] in ('sorted', 'set', 'reversed') for x in v[2]):
                    rep.bad('stream', e.loc, 'the pieces of a stream are written as %s' % show(v)[:60])
                elif is_c(v):
                    rep.check(v[2].split() == [b'one', b'two', b'three'], 'stream', e.loc, 'the pieces of a stream are written as %r' % v[2])
                else:
                    rep.unk('stream', e.loc, show(v)[:80])
