"""C17: links, labels, underlines and backgrounds sit on the text they belong to."""
import ast
from .common import *
from ..engine import State
from .c13 import strip_round

TECHNIQUE = ('inductive symbolic layout of lines: the text position, summed from the Td operands a template emits, and the '
             'position handed to the graphics are compared as Laurent polynomials on every path, for every alignment and list '
             'setting, over three consecutive lines; affine check of every translation to the page')

SELF = ('sym', 'self')
MOVES = {'Td', 'TD', 'Tm', 'T*', "'", '"', 'BT', 'ET', 'cm', 'q', 'Q', 'Tz', 'Tc'}


def run(prog, rep):
    rep.rule('pen', 'the position given to links, labels, underlines and backgrounds of a part is the position its text is drawn at')
    rep.rule('baseline', 'the height given to them is the baseline the text is drawn on')
    rep.rule('advance', 'the position moves on by the width the text of the part takes')
    rep.rule('rect', 'the rectangles recorded for links and labels span the part, relative to its baseline')
    rep.rule('graphics', 'backgrounds and underlines span the part, relative to its baseline')
    rep.rule('page', 'texts, graphics, links and destinations of a paragraph are moved by its own origin')
    rep.section('graphics', graphics, prog, rep)
    rep.section('pen', pen, prog, rep)
    rep.section('advance', advance, prog, rep)
    rep.section('page', page, prog, rep)


# ------------------------------------------------------------------ templates
def ops(parts):
    """[(operator, [operands])] of a template; a star or an unknown fragment yields ('?', term)"""
    out, stack, word, depth = [], [], [], 0

    def flush():
        if not word:
            return
        w = list(word)
        word.clear()
        if all(isinstance(x, str) for x in w):
            s = ''.join(w)
            try:
                stack.append(C(float(s)))
            except ValueError:
                if s[0] in '/(':
                    stack.append(C(s))
                else:
                    out.append((s, list(stack)))
                    stack.clear()
        elif len(w) == 1:
            stack.append(w[0])
        elif len(w) == 2 and w[0] in ('-', '+') and not isinstance(w[1], str):
            stack.append(p_mul(C(-1 if w[0] == '-' else 1), strip_round(w[1])))
        else:
            stack.append(('unk', 'mixed'))
    for p in parts:
        if p[0] == 'lit':
            t = p[1] if isinstance(p[1], str) else p[1].decode('latin-1')
            for ch in t:
                if depth:
                    if ch == ')':
                        depth = 0
                        stack.append(C('(string)'))
                elif ch == '(':
                    flush()
                    depth = 1
                elif ch.isspace():
                    flush()
                else:
                    word.append(ch)
        elif p[0] == 'hole':
            if not depth:
                glued = word and all(isinstance(x, str) for x in word) and ''.join(word)[:1].isalpha()
                if glued or p[1][0] == 'call' or p[1][0] == 'cat':
                    flush()
                    out.append(('?', p[1]))
                else:
                    word.append(p[1])
        else:
            if not depth:
                flush()
                out.append(('?', p))
    flush()
    return out


def poly(t):
    return rebuild(strip_round(t))


def rebuild(t):
    if t[0] == 'poly':
        r = C(0)
        for m, c in t[1]:
            x = from_poly({(): c})
            for a, e in m:
                a = rebuild(a)
                for _ in range(abs(e)):
                    x = p_mul(x, a) if e > 0 else p_mul(x, p_inv(a))
            r = p_add(r, x)
        return r
    return t


def zero(t):
    """True / False / None: the difference vanishes (up to rounding of the output)"""
    t = poly(t)
    if is_num_c(t):
        return abs(t[2]) < 1e-9
    if contains_unknown(t):
        return None
    return False


def contains_unknown(t):
    return any(x[0] in ('unk', 'ite', 'out') for x in subterms(t))


def has_op(prog, fi, names):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
            s = n.value if isinstance(n.value, str) else n.value.decode('latin-1')
            if fi.node.body and isinstance(fi.node.body[0], ast.Expr) and fi.node.body[0].value is n:
                continue
            if set(s.replace(')', ') ').split()) & names:
                return True
    return False


def text_class(prog):
    return prog.cls('PDFTextBase')


# ------------------------------------------------------------------ graphics
def graphics_fn(prog):
    fs = [g for g in text_class(prog).methods.values() if has_op(prog, g, {'re'})]
    if len(fs) != 1:
        raise AnchorMissing('function that draws backgrounds')
    return fs[0]


ROLES = {}


def graphics(prog, rep):
    """background rectangle and underline in terms of the parameters; finds which parameter is which"""
    fi = graphics_fn(prog)
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.cls is not text_class(prog)})
    ROLES.clear()
    n = 0
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        r = p.ret
        if r is None or r[0] != 'cat':
            continue
        cur = None
        for op, a in ops(cat_parts(r)):
            loc = fi.loc()
            if op == 're' and len(a) >= 4:
                n += 1
                x, y, w, h = [poly(v) for v in a[-4:]]
                if x[0] == 'sym' and w[0] == 'sym':
                    if ROLES.setdefault('x', x) != x or ROLES.setdefault('w', w) != w:
                        rep.bad('graphics', loc, 'the background starts at %s and is %s wide' % (show(x), show(w)))
                    else:
                        rep.ok('graphics', loc)
                else:
                    xs = [s for s in subterms(x) if s[0] == 'sym' and s != SELF and s[1] != 'part']
                    rep.check(False if is_known(x) and is_known(w) and xs else None, 'graphics', loc,
                              'the background spans from %s with width %s' % (show(x)[:60], show(w)[:60]))
                ys = height(rep, fi, loc, y, 'background')
                if ys is not None and ROLES.setdefault('y', ys) != ys:
                    rep.bad('graphics', loc, 'the background is placed from %s' % show(ys))
            elif op == 'm' and len(a) >= 2:
                cur = [poly(v) for v in a[-2:]]
            elif op == 'l' and len(a) >= 2 and cur:
                n += 1
                e = [poly(v) for v in a[-2:]]
                flat_ = zero(p_sub(cur[1], e[1]))
                rep.check(flat_, 'graphics', loc, 'the underline goes from height %s to %s' % (show(cur[1])[:60], show(e[1])[:60]))
                w = poly(p_sub(e[0], cur[0]))
                if cur[0][0] == 'sym' and w[0] == 'sym':
                    if ROLES.setdefault('x', cur[0]) != cur[0] or ROLES.setdefault('w', w) != w:
                        rep.bad('graphics', loc, 'the underline goes from %s to %s' % (show(cur[0]), show(e[0])))
                    else:
                        rep.ok('graphics', loc)
                else:
                    rep.check(False if is_known(cur[0]) and is_known(e[0]) else None, 'graphics', loc,
                              'the underline goes from %s to %s' % (show(cur[0])[:60], show(e[0])[:60]))
                ys = height(rep, fi, loc, cur[1], 'underline')
                if ys is not None and ROLES.setdefault('y', ys) != ys:
                    rep.bad('graphics', loc, 'the underline is placed from %s' % show(ys))
    rep.count('backgrounds and underlines drawn', n)


def monos(t):
    return dict(to_poly(t)) if t[0] in ('poly', 'c') or True else {}


def height(rep, fi, loc, y, what):
    """y = baseline parameter + rise + constant * size; returns the parameter"""
    base, rise, bad = None, 0, []
    for m, c in to_poly(y).items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a[0] == 'sym' and c == 1 and base is None:
                base = a
                continue
            if a[0] == 'attr' and a[2] == 'rise':
                rise += c
                continue
            if a[0] == 'attr' and a[2] == 'size' and a[1][0] == 'attr':
                continue
        bad.append((m, c))
    if base is None or any(not simple(m) for m, c in bad):
        rep.unk('graphics', loc, 'height of the ' + what)
        return None
    rep.check(rise == 1 and not bad, 'graphics', loc, 'the %s is placed at %s, which does not follow the raised baseline of its text'
              % (what, show(y)[:80]))
    return base


def simple(m):
    return all(a[0] in ('sym', 'attr') for a, e in m)


# ------------------------------------------------------------------ pen position
def pen(prog, rep):
    cls = text_class(prog)
    al = prog.func('PDFTextBase.add_line_to_stream')
    init = prog.func('PDFTextBase.init')
    gfx = graphics_fn(prog)
    opaque = {g.qual for g in prog.all_functions() if g.cls is not cls}
    emit = {g.qual for g in cls.methods.values() if g.qual != al.qual and has_op(prog, g, {'Tj', 'TJ', 'Tw'})}
    opaque |= emit | {gfx.qual}
    for q in emit:
        stray(prog, rep, prog.func(q))
    eng = Engine(prog, opaque=opaque)
    eng.nomerge = True
    consts = built(prog)
    n = 0
    depth = 3 if rep.tier == 'quick' else 4
    for align in 'lrcj':
        for listed in (False, True):
            st = State()
            for k, v in consts.items():
                st.heap[('a', SELF, k)] = v
            st.heap[('a', SELF, 'text_align')] = C(align)
            st.heap[('a', SELF, 'list_text')] = C('*') if listed else NONE
            starts = [p for p in eng.analyse(init, state=st) if not p.raised]
            if not starts:
                rep.unk('pen', init.loc(), 'nothing known of a new paragraph')
                return
            start = min(starts, key=lambda p: (len(p.trace), len(p.facts)))
            what = 'alignment %r, %s' % (align, 'list' if listed else 'no list')
            after = []
            n += lines(rep, eng, al, gfx, emit, start.state, 0, depth, what + ', first run', after)
            # continued in another column or page: the next run starts from what the first one left behind
            seen = []
            for s2 in after:
                for p in eng.analyse(init, state=s2.copy()):
                    if p.raised:
                        continue
                    key = {k: v for k, v in p.state.heap.items() if k[0] == 'a' and k[1] == SELF and (is_c(v) or k[2] in consts)}
                    key = {k: v if is_c(v) else None for k, v in key.items()}
                    if key in seen:
                        continue
                    seen.append(key)
                    n += lines(rep, eng, al, gfx, emit, p.state, 0, depth - 1, what + ', later run', [])
    rep.functions |= eng.analysed
    rep.count('lines placed (alignment x list x run x line x path)', n)
    rep.count('starting constants', len(consts))


def built(prog):
    """constants a new paragraph starts with"""
    cls = text_class(prog)
    fi = prog.find_method(cls, '__init__', 'methods')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual and not (g.cls is cls and g.name.startswith('_'))})
    out, drop = {}, set()
    for p in eng.analyse(fi):
        if p.raised:
            continue
        w = {}
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and e.a[0] == SELF:
                w[e.a[1]] = e.a[2]
        for k, v in w.items():
            if not is_c(v) or out.get(k, v) != v:
                drop.add(k)
            out[k] = v
    return {k: v for k, v in out.items() if k not in drop}


def stray(prog, rep, fi):
    """the text of a part contains no positioning"""
    if has_op(prog, fi, MOVES - {'BT', 'ET'}):
        rep.unk('pen', fi.loc(), 'the text of a part moves the text position itself')
    else:
        rep.ok('pen', fi.loc())


def lines(rep, eng, al, gfx, emit, st, k, depth, what, after):
    n = 0
    base = len(st.trace)
    args = {al.args[1]: ('sym', 'line%d' % k)}
    if len(al.args) > 2:
        args[al.args[2]] = ('sym', 'is_last%d' % k)
    for p in eng.analyse(al, args, st.copy()):
        if p.raised:
            continue
        n += 1
        judge_line(rep, eng, al, gfx, emit, p, p.trace[base:], '%s, line %d of the run' % (what, k + 1))
        after.append(p.state.copy())
        if k + 1 < depth:
            n += lines(rep, eng, al, gfx, emit, p.state, k + 1, depth, what, after)
    return n


def loop_of(e):
    return e.a if isinstance(e.a, Loop) else e.a[0]


def judge_line(rep, eng, al, gfx, emit, p, tr, what):
    found = False
    for e in tr:
        if e.kind != 'loop':
            continue
        L = loop_of(e)
        calls = [(s, [x for x in s.trace[s.base:]]) for s, sig in L.parts]
        if not any(x.kind == 'call' and x.a[0] in emit | {gfx.qual} for s, evs in calls for x, _ in all_events(evs)):
            continue
        found = True
        X = Y = C(0)
        text = None
        for loc, v in L.entry.items():
            if loc[0] == 'a' and loc[1] == SELF and v[0] == 'cat' and any(o[0] == 'Td' for o in ops(cat_parts(v))):
                text = v
        if text is None:
            rep.unk('pen', al.loc(e.node), 'text emitted before the parts of a line')
            continue
        ok = True
        for op, a in ops(cat_parts(text)):
            if op in ('Td', 'TD') and len(a) >= 2:
                X, Y = p_add(X, poly(a[-2])), p_add(Y, poly(a[-1]))
            elif op in MOVES - {'Tc', 'Tz'}:
                ok = False
        if not ok:
            rep.unk('pen', al.loc(e.node), 'the text position is not moved by offsets only')
            continue
        marked = lambda s: any(x.kind == 'call' and x.a[0] == gfx.qual for x in s.trace[s.base:])
        for s, sig in sorted(L.parts, key=lambda q: not marked(q[0])):
            part(rep, al, gfx, emit, L, s, X, Y, p, what)
    if not found:
        rep.unk('pen', al.loc(), 'parts of a line')


def entry_of(L, t):
    """value in the first iteration"""
    return subst(t, lambda x: L.entry.get(x[2], C(0) if False else None) if x[0] == 'head' and x[1] == L.id else None)


def next_of(L, s, t):
    def f(x):
        if x[0] == 'head' and x[1] == L.id:
            loc = x[2]
            if loc[0] == 'env':
                return s.env.get(loc[1])
            return s.heap.get(loc)
        return None
    return subst(t, f)


def part(rep, al, gfx, emit, L, s, X, Y, p, what):
    evs = s.trace[s.base:]
    g = next((x for x in evs if x.kind == 'call' and x.a[0] == gfx.qual), None)
    t = next((x for x in evs if x.kind == 'call' and x.a[0] in emit), None)
    if t is None:
        return
    if g is not None and {'x', 'y', 'w'} <= set(ROLES):
        a = dict(g.a[2])
        x, y, w = (a.get(ROLES[k][1]) for k in 'xyw')
        if x is None or y is None or w is None:
            rep.unk('pen', g.loc, 'arguments of ' + gfx.name)
            return
        d = p_sub(entry_of(L, x), X)
        z = zero(d)
        rep.check(z, 'pen', g.loc, 'the text starts at %s but its graphics and links at %s (%s)'
                  % (show(poly(X))[:90], show(poly(entry_of(L, x)))[:90], what))
        zy = zero(p_sub(entry_of(L, y), Y))
        rep.check(zy, 'baseline', g.loc, 'the text is drawn at height %s but its graphics at %s (%s)'
                  % (show(poly(Y))[:90], show(poly(entry_of(L, y)))[:90], what))
        if any(v[0] == 'head' for v in subterms(y)):
            rep.check(zero(p_sub(next_of(L, s, y), y)), 'baseline', g.loc, 'the height changes from part to part of a line')
        if x[0] == 'head':
            SEEN.setdefault(L.node, set()).add(x[2])
        step(rep, L, s, x, w, t, g.loc, what)
        rects(rep, al, evs, x, y, w, what)
    else:
        # nothing visible: the position still has to move on with the text
        for h in SEEN.get(L.node, ()):
            unseen(rep, L, s, h, t, what)


def step(rep, L, s, x, w, t, loc, what):
    nx = next_of(L, s, x)
    rep.check(zero(p_sub(p_sub(nx, x), w)), 'advance', loc, 'after a part %s wide the position goes from %s to %s'
              % (show(w)[:50], show(x)[:50], show(nx)[:60]))
    # the width is the one of the same part with the same spacing as its text
    if w[0] == 'call':
        wa = [a for a in w[2]] + [v for _, v in w[3]]
        ta = [v for _, v in t.a[2]]
        same = [a for a in wa if a in ta]
        nums = [a for a in wa if a not in ta]
        rep.check(True if not nums else False if all(is_known(a) for a in nums) else None, 'advance', loc,
                  'the width is computed with %s, the text is drawn with %s' % (', '.join(show(a)[:40] for a in wa), ', '.join(show(a)[:40] for a in ta)))
    else:
        rep.unk('advance', loc, 'width of a part')


SEEN = {}


def unseen(rep, L, s, loc, t, what):
    """a part without visible marks: it takes its width all the same, unless it has no text"""
    x = ('head', L.id, loc)
    d = poly(p_sub(next_of(L, s, x), x))
    ta = [v for _, v in t.a[2]]
    if d[0] == 'call':
        return rep.check(True if all(a in ta for a in list(d[2]) + [v for _, v in d[3]]) else None, 'advance', t.loc, 'width of an unmarked part')
    empty = any(f[0] == 'eq' and b and any(v in f[1:] for v in ta) and (C('') in f[1:]) or f[0] == 'truthy' and not b and f[1] in ta
                for f, b in s.facts.items())
    rep.check(True if empty else False if is_num_c(d) else None, 'advance', t.loc,
              'a part without marks moves the position by %s only' % show(d)[:50])


def rects(rep, al, evs, x, y, w, what):
    for e, ctx in all_events(evs):
        if e.kind != 'append':
            continue
        v = e.a[1]
        st = ctx[-1][1] if ctx else None
        items = st.heap.get(('L', v[1])) if st is not None and v[0] == 'list' else None
        if v[0] == 'tuple':
            items = v[1]
        if not items or len(items) != 4:
            if v[0] in ('list', 'tuple'):
                rep.unk('rect', e.loc, 'rectangle recorded')
            continue
        x0, y0, x1, y1 = items
        rep.check(zero(p_sub(x0, x)), 'rect', e.loc, 'the rectangle of a part starts at %s, the part at %s' % (show(x0)[:60], show(x)[:60]))
        rep.check(zero(p_sub(p_sub(x1, x), w)), 'rect', e.loc, 'the rectangle of a part ends at %s' % show(x1)[:60])
        for nm, v in (('bottom', y0), ('top', y1)):
            rise, bad = 0, []
            for m, c in to_poly(poly(p_sub(v, y))).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'attr' and m[0][0][2] == 'rise':
                    rise += c
                elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'attr' and m[0][0][2] == 'size':
                    continue
                else:
                    bad.append((m, c))
            if any(not simple(m) and any(a[0] not in ('head', 'idx') for a, _ in m) for m, c in bad):
                rep.unk('rect', e.loc, nm)
            else:
                rep.check(rise == 1 and not bad, 'rect', e.loc, 'the %s of the rectangle is %s, which does not follow the raised baseline' % (nm, show(v)[:80]))
        h = to_poly(poly(p_sub(y1, y0)))
        rep.check(all(c > 0 for c in h.values()) if h and all(m for m in h) else None, 'rect', e.loc,
                  'the rectangle is %s high' % show(p_sub(y1, y0))[:60])


# ------------------------------------------------------------------ widths
def advance(prog, rep):
    cls = prog.cls('PDFTextLinePart')
    cw = prog.find_method(cls, 'current_width', 'methods')
    if cw is None:
        raise AnchorMissing('PDFTextLinePart.current_width')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.cls is not cls})
    # words and spaces are measured in separate sums
    words = spaces = None
    fpar = ('sym', cw.args[1]) if len(cw.args) > 1 else None
    n = 0
    for p in eng.analyse(cw):
        if p.raised:
            continue
        t = to_poly(poly(p.ret))
        ws = [m for m in t if not any(a == fpar for a, _ in m)]
        ss = [m for m in t if any(a == fpar for a, _ in m)]
        good = len(ws) == 1 and len(ss) == 1 and t[ws[0]] == 1 and t[ss[0]] == 1 and len(ws[0]) == 1 and len(ss[0]) == 2
        if not good:
            rep.unk('advance', cw.loc(), 'width of a part')
            return
        words, = [a for a, _ in ws[0]]
        spaces, = [a for a, _ in ss[0] if a != fpar]
        rep.ok('advance', cw.loc())
    if words is None or words[0] != 'attr' or spaces[0] != 'attr':
        rep.unk('advance', cw.loc(), 'sums of widths')
        return
    # extra word spacing: factor times the width of a space
    base = text_class(prog)
    for g in base.methods.values():
        if not has_op(prog, g, {'Tw'}):
            continue
        e2 = Engine(prog, opaque={h.qual for h in prog.all_functions() if h.qual != g.qual})
        for p in e2.analyse(g):
            if p.raised or p.ret is None or p.ret[0] != 'cat':
                continue
            for op, a in ops(cat_parts(p.ret)):
                if op == 'Tw' and a:
                    n += 1
                    tw = poly(a[-1])
                    if is_c(tw):
                        # zero spacing: only where the value is zero
                        continue
                    fp = [s for s in subterms(tw) if s[0] == 'sym' and s[1] not in ('part', 'self')]
                    sw = [s for s in subterms(tw) if s[0] == 'attr' and s[2] != spaces[2]]
                    if len(set(fp)) != 1 or not sw:
                        rep.unk('advance', g.loc(), 'word spacing')
                        continue
                    want = p_mul(sw[0], p_sub(fp[0], C(1)))
                    rep.check(zero(p_sub(tw, want)), 'advance', g.loc(), 'the extra word spacing is %s, the widths assume %s' % (show(tw)[:60], show(want)[:60]))
                    unit = sw[0][2]
                    sums(prog, rep, cls, words[2], spaces[2], unit)
    rep.count('word spacings', n)


def mentions_word(f, e, p):
    words = [x.a[1] for x, _ in all_events(p.trace) if x.kind == 'append'] + [x.a[3] for x, _ in all_events(p.trace) if x.kind == 'mut' and len(x.a) > 3]
    return any(contains(f, lambda t, w=w: t == w) if False else w in list(subterms(f)) for w in words)


def sums(prog, rep, cls, words, spaces, unit):
    """adding or removing a word changes exactly the sum it belongs to"""
    for m in cls.methods.values():
        if m.name == '__init__' or not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in (words, spaces) for n in ast.walk(m.node)):
            continue
        eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != m.qual})
        for p in eng.analyse(m):
            if p.raised:
                continue
            w = {}
            sign = 0
            for e, _ in all_events(p.trace):
                if e.kind == 'write' and e.a[0] == SELF and e.a[1] in (words, spaces):
                    w[e.a[1]] = e
                if e.kind == 'append':
                    sign = 1
                    word = e.a[1]
                if e.kind == 'mut' and e.a[1] == 'pop':
                    sign = -1
            if not sign:
                if w:
                    rep.unk('advance', m.loc(), 'width changed without a word')
                continue
            if len(w) != 1:
                rep.bad('advance', m.loc(), 'a word added or removed changes %d of the two width sums where %s' % (len(w), p.where()[:100]))
                continue
            (a, e), = w.items()
            d = poly(p_mul(C(sign), p_sub(e.a[2], ('attr', SELF, a, 0))))
            is_space = [b for f, b in p.facts.items() if f[0] == 'eq' and C(' ') in f[1:]]
            if a == spaces:
                good = d[0] == 'attr' and d[2] == unit and (not is_space or is_space[0])
                rep.check(good if d[0] == 'attr' or is_num_c(d) or d[0] == 'poly' else None, 'advance', e.loc,
                          'a space changes the width of spaces by %s' % show(d)[:60])
            else:
                good = d[0] in ('call', 'fn') and bool(is_space) and not is_space[0]
                if not is_space and any(mentions_word(f, e, p) for f in p.facts):
                    rep.unk('advance', e.loc, 'which words count as spaces')
                    continue
                rep.check(True if good else False if is_num_c(d) or d[0] == 'attr' or d[0] in ('call', 'fn') else None, 'advance', e.loc,
                          'a word changes the width of words by %s' % show(d)[:60])


# ------------------------------------------------------------------ page
def page(prog, rep):
    fi = prog.func('PDF._add_text')
    gps = prog.func('get_paragraph_stream')
    keep = {fi.qual}
    opaque = {g.qual for g in prog.all_functions() if g.qual != fi.qual and (g.cls is None or g.cls.name not in ('PDF',) or g.name in ('_used_font',))}
    pg = [g.qual for g in prog.cls('PDFPage').methods.values()]
    eng = Engine(prog, opaque=opaque | set(pg))
    n = 0
    streams(prog, rep, gps)
    for p in eng.analyse(fi, types={('sym', 'self'): 'PDF'}):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        org = None
        for e, ctx in all_events(p.trace):
            if e.kind == 'call' and e.a[0] == gps.qual:
                a = dict(e.a[2])
                org = [strip_round(a.get(gps.args[i])) for i in (0, 1)]
                rep.check(True if all(o and o[0] == 'sym' for o in org) else None, 'page', e.loc, 'origin of the paragraph')
        if org is None:
            rep.unk('page', fi.loc(), 'no paragraph drawn')
            continue
        for e, ctx in all_events(p.trace):
            st = ctx[-1][1] if ctx else p.state
            rect = None
            if e.kind == 'call' and e.a[0].startswith('PDFPage.') and ctx:
                for nm, v in e.a[2]:
                    its = seq(st, v)
                    if its and len(its) == 4:
                        rect = its
                        n += 1
                        corners(rep, e.loc, org, rect)
            v = None
            if e.kind == 'setitem':
                v = e.a[2]
            elif e.kind == 'mut' and e.a[1] == 'setdefault' and len(e.a[2]) == 2:
                v = e.a[2][1]
            if v is not None:
                its = seq(st, v)
                if its and len(its) >= 4 and its[1] == C(b'/XYZ'):
                    n += 1
                    dest(rep, e.loc, org, its)
    rep.count('rectangles and destinations moved to the page', n)
    callers(prog, rep, fi)


def seq(st, v):
    if v[0] == 'list':
        x = st.heap.get(('L', v[1]))
        return list(x) if x is not None and all(i[0] not in ('star', 'unk') for i in x) else None
    if v[0] == 'tuple':
        return list(v[1])
    return None


def corners(rep, loc, org, rect):
    src = set()
    for i, t in enumerate(rect):
        t = poly(t)
        d = poly(p_sub(t, org[i % 2]))
        if d[0] == 'idx' and is_num_c(d[2]):
            good = d[2][2] == i
            src.add(d[1])
            rep.check(good, 'page', loc, 'corner %d of a link is %s' % (i, show(t)[:60]))
        else:
            rep.check(False if is_known(t) else None, 'page', loc, 'corner %d of a link is %s, not moved by the origin of its paragraph' % (i, show(t)[:60]))
    if len(src) > 1:
        rep.bad('page', loc, 'the corners of a link come from different rectangles')


def dest(rep, loc, org, its):
    for i, t, want in ((0, its[2], 0), (1, its[3], 3)):
        t = poly(t)
        d = poly(p_sub(t, org[i]))
        if d[0] == 'idx' and is_num_c(d[2]):
            rep.check(d[2][2] % 2 == i, 'page', loc, 'coordinate %d of a destination is %s' % (i, show(t)[:60]))
            first = d[1][0] == 'idx' and d[1][2] == C(0)
            rep.check(True if first else False if d[1][0] == 'idx' and is_num_c(d[1][2]) else None, 'page', loc,
                      'a destination is taken from %s, not from the first rectangle of its text' % show(d[1])[:60])
        else:
            rep.check(False if is_known(t) else None, 'page', loc, 'coordinate %d of a destination is %s, not moved by the origin of its paragraph' % (i, show(t)[:60]))


def streams(prog, rep, gps):
    eng = Engine(prog)
    for p in eng.analyse(gps):
        rep.functions |= eng.analysed
        if p.raised or p.ret is None or p.ret[0] != 'cat':
            continue
        for op, a in ops(cat_parts(p.ret)):
            if op in ('cm', 'Tm') and len(a) >= 6:
                a = [poly(x) for x in a[-6:]]
                unit = all(is_num_c(x) and x[2] == w for x, w in zip(a[:4], (1, 0, 0, 1)))
                rep.check(unit if all(is_known(x) for x in a[:4]) else None, 'page', gps.loc(), 'a paragraph is scaled or turned: %s' % ' '.join(show(x)[:20] for x in a))
                for x, nm in ((a[4], gps.args[0]), (a[5], gps.args[1])):
                    rep.check(True if x == ('sym', nm) else False if is_known(x) else None, 'page', gps.loc(),
                              'operand of %s is %s instead of %s' % (op, show(x)[:50], nm))


def callers(prog, rep, fi):
    """the origin handed over with a laid-out paragraph is the origin it was laid out at"""
    cls = text_class(prog)
    g = cls.getters.get('result')
    if g is None:
        rep.unk('page', fi.loc(), 'result of a paragraph')
        return
    eng = Engine(prog)
    for p in eng.analyse(g):
        r = p.ret
        if p.raised or r is None or r[0] != 'dict':
            continue
        d = {}
        for l in p.state.heap.get(('D', r[1]), ()):
            if l[0] == 'kv' and is_c(l[1]):
                d[l[1][2]] = l[2]
        for k in ('x', 'y'):
            v = d.get(k)
            v = poly(v) if v is not None else None
            rep.check(True if v == ('attr', SELF, k, 0) else False if v is not None and is_known(v) else None, 'page', g.loc(),
                      'the %s handed over with a paragraph is %s' % (k, show(v)[:50] if v else None))
