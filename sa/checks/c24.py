"""C24: content that does not fit is carried over, never dropped."""
import ast
from .common import *
from .c21 import Maker, opaque_set
from .c22 import unv
from .c23 import is_run, makes_layout

TECHNIQUE = ('typestate of pending elements: the layout loops are interpreted over every short sequence of elements with every answer an element handler can give, '
             'and what is neither finished nor handed on is reported; path rules on the handlers (what they return against the finished flag of the layout they ran) '
             'and on the page loops (left only when finished)')

SELF = ('sym', 'self')
FLAG = 'finished'


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('handler', 'an element is reported as done exactly when its layout finished; otherwise the unfinished object and its position after the run are handed on')
    rep.rule('resume', 'a continued element goes on with the object and position handed on, not as finished, in the space given')
    rep.rule('dispatch', 'what a handler hands on comes back to the same handler')
    rep.rule('box', 'no element of a box is dropped or laid out twice, whatever its handlers answer')
    rep.rule('rows', 'no row or cell of a table is dropped, whatever fits')
    rep.rule('words', 'a paragraph goes on after the last word drawn')
    rep.rule('flag', 'finished only when nothing remains')
    rep.rule('pages', 'layout goes on with new pages until everything is finished')
    for cls in ('PDFContentPart', 'PDFTable'):
        rep.section('handler', handlers, prog, rep, cls)
    for cls in ('PDFContentPart', 'PDFTable'):
        rep.section('handler', image, prog, rep, cls)
    rep.section('handler', group, prog, rep)
    rep.section('handler', child, prog, rep)
    rep.section('dispatch', dispatch, prog, rep)
    rep.section('box', boxes, prog, rep)
    rep.section('flag', content_flag, prog, rep)
    rep.section('rows', table_rows, prog, rep)
    rep.section('rows', table_row, prog, rep)
    rep.section('rows', table_cell, prog, rep)
    rep.section('words', paragraph, prog, rep)
    rep.section('words', part_words, prog, rep)
    for q in ('PDF.text', 'PDF.table', 'PDF.content'):
        rep.section('pages', pages, prog, rep, q)
    rep.section('pages', drawn_object, prog, rep)
    rep.section('pages', document, prog, rep)


# ------------------------------------------------------------------ helpers
class Model:
    """transfer functions that answer everything a helper may answer"""

    def __init__(self):
        self.n = 0

    def maker(self, eng, st):
        m = Maker(st)
        m.n = 930000 + 40 * eng.new_id()
        return m

    def note(self, eng, st, e, *a):
        st.trace = st.trace + (Ev('stub', a, e, eng.fi),)


def heap(st, **kw):
    for k, v in kw.items():
        st.heap[('a', SELF, k)] = v


def stubs_of(p):
    return [e.a for e, _ in all_events(p.trace) if e.kind == 'stub']


def consts(st, t):
    """constants of a list term"""
    if t is None:
        return None
    items = t[1] if t[0] == 'tuple' else st.heap.get(('L', t[1])) if t[0] == 'list' else None
    if items is None or any(not is_c(x) for x in items):
        return None
    return [x[2] for x in items]


def field(p, name):
    return p.heap.get(('a', SELF, name))


def layers(st, t):
    return st.heap.get(('D', t[1]), ()) if t[0] == 'dict' else ()


def entry(st, t, key):
    """value under a constant key of a dictionary built here; None unknown, False absent"""
    if t[0] != 'dict':
        return None
    for l in reversed(layers(st, t)):
        if l[0] == 'kv' and l[1] == C(key):
            return l[2]
        if l[0] == 'del' and l[1] == C(key):
            return False
        if l[0] in ('kv', 'del') and is_c(l[1]):
            continue
        if l[0] == 'upd' and l[1][0] == 'dict':
            r = entry(st, l[1], key)
            if r is not False:
                return r
            continue
        return None
    return False


# ------------------------------------------------------------------ handlers of single elements
def flag_known(p, o, ran):
    """what the path knows about `finished` of the object that was run"""
    for f, v in p.facts.items():
        if f[0] == 'truthy':
            x = unv(f[1])
            if x[0] == 'attr' and x[2] == FLAG and x[1] == unv(o):
                return v
    return None


def handlers(prog, rep, cls):
    for m in prog.cls(cls).methods.values():
        if m.name in ('run', '__init__', 'process_child') or not makes_layout(prog, m):
            continue
        if cls == 'PDFContentPart' and any(isinstance(n, ast.Name) and n.id == 'PDFContentPart' for n in ast.walk(m.node)):
            continue
        rep.section('handler', handler, prog, rep, m)


def handler(prog, rep, m):
    keep = {m.qual} | {g.qual for g in m.cls.methods.values() if g.name not in ('setup', 'reset', '__init__', 'run', 'get_state', 'set_state') and not makes_layout(prog, g)}
    keep -= {g.qual for g in m.cls.methods.values() if g.name in ('add_elements', 'add_delayed', 'add_row', 'add_cell', 'process', 'process_group', 'process_group_element', 'next_section')}
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    eng.mcall_havoc = True
    eng.nomerge = True
    parts = eng.analyse(m)
    rep.functions |= eng.analysed
    elem = S(m.args[1])
    given = [S(a) for a in m.args[2:]]
    for p in parts:
        if p.raised:
            continue
        rep.count('paths of element handlers', 1)
        evs = [e for e, c in all_events(p.trace)]
        runs = [(i, e, unv(is_run(e))) for i, e in enumerate(evs) if is_run(e) is not None]
        if len(runs) != 1:
            rep.unk('handler', m.loc(), '%d layout runs' % len(runs))
            continue
        i, e, o = runs[0]
        left, what = outcome(p, m, o)
        if left is None:
            rep.unk('handler', m.loc(), 'outcome %s' % (show(p.ret)[:60] if p.ret else None))
            continue
        if left == 'flag':
            # the flag itself is returned: what is left over must be handed on whenever it is off
            known = flag_known(p, o, i)
            kept = handed(p, given, o)
            if known is None:
                rep.check(None if kept else False, 'handler', m.loc(), 'nothing is handed on whatever remains (%s)' % p.where()[:60])
                continue
            left, what = (not known), (kept if kept else ())
        else:
            known = flag_known(p, o, i)
            if known is None:
                rep.check(None if opaque_flag(p, o) else False, 'handler', m.loc(), 'an element is reported as %s without asking whether its layout finished (%s)' % (
                    'unfinished' if left else 'done', p.where()[:60]))
                continue
            rep.check(known == (not left), 'handler', m.loc(), 'an element is reported as %s though its layout %s (%s)' % (
                'unfinished' if left else 'done', 'finished' if known else 'did not finish', p.where()[:60]))
        if known:
            if what is not None and what != ():
                rep.unk('handler', m.loc(), 'handed on though finished')
        else:
            remainder(rep, m, p, evs, i, o, what)
        resumed(rep, m, p, evs, i, o, elem, given)


def opaque_flag(p, o):
    """the path asks for something that may stand for the flag"""
    return any(f[0] in ('truthy', 'eq', 'in') and any(x[0] == 'call' for x in subterms(f[1])) for f in p.facts)


def outcome(p, m, o):
    """(whether something remains, what is handed on)"""
    r = p.ret
    if r is None:
        return None, None
    if r[0] == 'dict':
        d = entry(p.state, r, 'delayed')
        if d is None or d is False:
            return None, None
        if d == NONE:
            return False, None
        return True, d
    if r[0] == 'tuple' and len(r[1]) == 2:
        x = unv(r[1][1])
        if is_c(x):
            return not x[2], None
        if x[0] == 'attr' and x[2] == FLAG and x[1] == o:
            return 'flag', None
        if x[0] == 'not':
            return None, None
    return None, None


def handed(p, given, o):
    """entries stored into a dictionary the caller passed: {key: value}"""
    out = {}
    for e, c in all_events(p.trace):
        if e.kind == 'setitem' and e.a[0] in given and is_c(e.a[1]):
            out[e.a[1][2]] = e.a[2]
        elif e.kind in ('mut', 'mcall') and e.a[1] == 'update' and e.a[0] in given and e.a[2]:
            for l in layers(p.state, e.a[2][0]):
                if l[0] == 'kv' and is_c(l[1]):
                    out[l[1][2]] = l[2]
            kw = e.a[3] if len(e.a) > 3 and e.kind == 'mcall' else ()
            for k, v in kw or ():
                out[k] = v
        elif e.kind in ('mut', 'mcall') and e.a[1] in ('update', 'setdefault', '__setitem__') and e.a[0] in given:
            return {'?': None}
    return out


def remainder(rep, m, p, evs, i, o, what):
    if isinstance(what, dict):
        ents = what
    elif what == ():
        ents = {}
    elif what is not None and what[0] == 'dict':
        ents = {}
        for l in layers(p.state, what):
            if l[0] == 'kv' and is_c(l[1]):
                ents[l[1][2]] = l[2]
            elif l[0] in ('upd', 'star'):
                ents.setdefault('*', []).append(l[1])
            else:
                ents['?'] = None
    else:
        rep.unk('handler', m.loc(), 'handed on: %s' % (show(what)[:60] if what else what))
        return
    if '?' in ents:
        rep.unk('handler', m.loc(), 'handed on')
        return
    # the object itself: stored here, or with the element it came from
    own = [k for k, v in ents.items() if k != '*' and isinstance(v, tuple) and unv(v) == o]
    via = False
    for src in ents.get('*', ()):
        x = o
        while x[0] in ('idx', 'get', 'attr'):
            if unv(x[1]) == unv(src):
                via = True
            x = unv(x[1])
    others = [v for k, v in ents.items() if k != '*' and isinstance(v, tuple) and v[0] == 'obj' and unv(v) != o]
    if own or via:
        rep.ok('handler', m.loc())
    else:
        rep.check(False if not ents.get('*') and (o[0] == 'obj' or others or not ents) else None, 'handler', m.loc(),
                  'the unfinished %s is not handed on (%s)' % (o[1] if o[0] == 'obj' else 'object', p.where()[:60]))
    st = ents.get('state')
    states = [(j, x) for j, x in enumerate(evs) if x.kind == 'call' and x.a[0].endswith('.get_state') or x.kind == 'mcall' and x.a[1] == 'get_state']
    if st is None:
        rep.check(False if '*' not in ents or not states else False, 'handler', m.loc(), 'the position of the unfinished element is not handed on (%s)' % p.where()[:60])
        return
    for j, x in states:
        res = x.a[3] if x.kind == 'call' else x.a[4]
        recv = unv(x.a[1] if x.kind == 'call' else x.a[0])
        if res == st:
            rep.check(recv == o, 'handler', x.loc, 'the position handed on is that of another layout')
            rep.check(j > i, 'handler', x.loc, 'the position handed on is the one before the layout was run')
            return
    rep.check(None if states or st[0] not in ('idx', 'get') else False, 'handler', m.loc(), 'the position handed on is %s' % show(st)[:50])


def resumed(rep, m, p, evs, i, o, elem, given):
    """an object that came with the element is put where it was and given the new space"""
    if o[0] == 'obj':
        return
    root = o
    while root[0] in ('idx', 'get', 'attr'):
        root = unv(root[1])
    if root != elem:
        rep.unk('resume', m.loc(), 'object %s' % show(o)[:50])
        return
    before = evs[:i]
    restored = placed = off = None
    for j, e in enumerate(before):
        recv = e.a[1] if e.kind == 'call' else e.a[0]
        name = e.a[0].split('.')[-1] if e.kind == 'call' else e.a[1] if e.kind == 'mcall' else None
        if name == 'set_state' and isinstance(recv, tuple) and unv(recv) == o:
            args = e.a[2] if e.kind == 'call' else e.a[3]
            vals = [v for k, v in (args or ())]
            got = None
            for v in vals:
                for x in subterms(v):
                    if x[0] in ('idx', 'get') and unv(x[1]) == elem and x[2] == C('state'):
                        got = True
            restored = (e, got)
        if name == 'setup' and isinstance(recv, tuple) and unv(recv) == o:
            placed = e
        if e.kind == 'write' and unv(e.a[0]) == o and e.a[1] == FLAG:
            off = (e, e.a[2])
    rep.check(restored is not None, 'resume', m.loc(), 'a continued element is not put to the position handed on')
    if restored is not None:
        rep.check(True if restored[1] else None, 'resume', restored[0].loc, 'position handed on')
    rep.check(False if off is None else off[1] == C(False) if is_c(off[1]) else None, 'resume', m.loc(), 'a continued element is still marked as it was')
    args = dict(evs[i].a[2]) if evs[i].kind == 'call' else {}
    ran = len(evs[i].a[2] if evs[i].kind == 'call' else evs[i].a[2])
    rep.check(True if placed is not None or ran else False, 'resume', m.loc(), 'a continued element is laid out in the space of the page before')
    if placed is not None and placed.kind in ('call', 'mcall'):
        n = len(placed.a[2]) + (len(placed.a[3] or ()) if placed.kind == 'mcall' else 0)
        rep.check(True if n >= 4 or ran else None, 'resume', placed.loc, 'setup with %d values' % n)


def image(prog, rep, cls):
    """an image that does not fit is handed on with everything that came with it"""
    for m in prog.cls(cls).methods.values():
        if makes_layout(prog, m) or m.name == '__init__' or not any(isinstance(n, ast.Constant) and n.value == 'pdf_image' for n in ast.walk(m.node)):
            continue
        if not m.name.startswith('process_'):
            continue
        eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
        eng.nomerge = True
        elem = S(m.args[1])
        given = [S(a) for a in m.args[2:]]
        for p in eng.analyse(m):
            if p.raised:
                continue
            rep.functions |= eng.analysed
            left, what = outcome(p, m, None)
            if left is None:
                rep.unk('handler', m.loc(), 'image: %s' % (show(p.ret)[:60] if p.ret else None))
                continue
            drawn = [e for e, c in all_events(p.trace) if e.kind == 'append' and unv(e.a[0])[0] == 'attr' and unv(e.a[0])[2] == 'parts']
            if not left:
                continue
            rep.check(not drawn, 'handler', m.loc(), 'an image that is drawn is handed on')
            if cls == 'PDFTable':
                kept = handed(p, given, None)
                if '?' in kept:
                    rep.unk('handler', m.loc(), 'image handed on')
                    continue
                img = kept.get('delayed')
                ok = img is not None and (img[0] == 'obj' or contains(img, elem))
                rep.check(ok, 'handler', m.loc(), 'an image that does not fit is not handed on (%s)' % p.where()[:60])
                continue
            ok = None
            if what == elem:
                ok = True
            elif what is not None and what[0] == 'dict':
                v = entry(p.state, what, 'image')
                ls = layers(p.state, what)
                ok = True if any(l[0] in ('upd', 'star') and unv(l[1]) == elem for l in ls) else True if v and contains(v, elem) else \
                    False if v is False else None
            elif what is not None and what[0] == 'fn' and what[1] == 'copy':
                ok = True
            rep.check(ok, 'handler', m.loc(), 'an image that does not fit is not handed on (%s)' % p.where()[:60])


def group(prog, rep):
    m = prog.func('PDFContentPart.process_group')
    st = State()
    mk = Maker(st)
    els = mk.l([C('one'), C('two')])
    el = mk.d([('group', els), ('style', S('style'))])
    fe = prog.func('PDFContentPart.process_group_element')
    mod = Model()

    def element(eng, st, recv, argmap, e):
        out = []
        for left in (False, True):
            if left and argmap.get('add_element') == C(True):
                continue
            s = st.copy()
            mod.note(eng, s, e, 'element', argmap.get('add_element'), left)
            out.append((s, mod.maker(eng, s).d([('delayed', S('rest') if left else NONE), ('next', C(left))])))
        return out
    eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
    eng.nomerge = True
    eng.stubs = {fe.qual: element}
    eng.types[S('rest')] = 'dict'
    st.facts[('isnone', S('rest'))] = False
    st.facts[('truthy', S('rest'))] = True
    for p in eng.analyse(m, args={m.args[1]: el}, state=st):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        left, what = outcome(p, m, None)
        if left is None:
            rep.unk('handler', m.loc(), 'group: %s' % (show(p.ret)[:60] if p.ret else None))
            continue
        lacks = any(a[2] for a in stubs_of(p))
        rep.check(left == lacks, 'handler', m.loc(), 'a group of which %s is reported as %s' % ('something does not fit' if lacks else 'everything fits', 'unfinished' if left else 'done'))
        if not left or not lacks:
            continue
        v = entry(p.state, what, 'group') if what[0] == 'dict' else None
        x = entry(p.state, what, 'style') if what[0] == 'dict' else None
        rep.check(False if v is False else None if v is None else v == els, 'handler', m.loc(), 'a group that does not fit is handed on as %s' % (show(v)[:40] if v else v))
        rep.check(False if x is False else None if x is None else True, 'handler', m.loc(), 'a group that does not fit loses its style')


def child(prog, rep):
    """answers of an inner box are passed on; done only when it is through"""
    m = prog.func('PDFContentPart.process_child')
    answers = loop_answers(prog)
    mod = Model()

    def inner(eng, st, recv, argmap, e):
        out = []
        for a in answers:
            s = st.copy()
            mod.note(eng, s, e, 'run', C(a))
            out.append((s, C(a)))
        return out
    eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
    eng.nomerge = True
    eng.stubs = {'PDFContentPart.run': inner}
    for p in eng.analyse(m):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        got = [a[1][2] for a in stubs_of(p) if a[0] == 'run']
        if len(got) != 1 or p.ret is None:
            rep.unk('handler', m.loc(), 'inner box')
            continue
        if got[0] == 'continue':
            left = p.ret[0] == 'dict' and entry(p.state, p.ret, 'delayed') == NONE
            rep.check(True if left else False if is_c(p.ret) else None, 'handler', m.loc(), 'an inner box that is done is answered with %s' % show(p.ret)[:40])
        else:
            rep.check(p.ret == C(got[0]) if is_c(p.ret) or p.ret[0] == 'dict' else None, 'handler', m.loc(), 'an inner box that answers %r is reported as %s' % (got[0], 'done' if p.ret[0] == 'dict' else show(p.ret)))


def loop_answers(prog):
    return ('continue', 'interrupt', 'break', 'partial_next')


KINDS = {'process_text': ('paragraph', 'text'), 'process_image': ('image', 'image'), 'process_table': ('table', 'table'),
         'process_content': ('content', 'content'), 'process_child': ('content', None), 'process_group': ('group', None)}


def dispatch(prog, rep):
    """elements, fresh or handed on, reach the handler of their kind"""
    f = prog.func('PDFContentPart.process')
    c = prog.cls('PDFContentPart')
    forms = [([('.', C('x'))], 'process_text'), ([('.b', C('x')), ('style', C('s'))], 'process_text'), ([('image', C('x'))], 'process_image'),
             ([('table', S('rows'))], 'process_table'), ([('content', S('els'))], 'process_child'), ([('group', S('els'))], 'process_group')]
    # what the handlers hand on
    for q, first in (('process_text', '.'), ('process_table', 'table')):
        for keys in handed_keys(prog, c.methods.get(q)):
            forms.append(([(k, S('v_' + k)) for k in keys], q))
    for kvs, want in forms:
        st = State()
        mk = Maker(st)
        el = mk.d(kvs)
        eng = Engine(prog, opaque=opaque_set(prog, {f.qual, 'PDFContentPart.parse_element'}))
        for p in eng.analyse(f, args={f.args[1]: el}, state=st):
            if p.raised:
                rep.unk('dispatch', f.loc(), 'element %s' % [k for k, _ in kvs])
                continue
            rep.functions |= eng.analysed
            got = [e.a[0].split('.')[-1] for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0].split('.')[-1] in KINDS]
            if len(got) != 1:
                rep.check(False if not got else None, 'dispatch', f.loc(), 'an element with %s reaches no handler' % ', '.join(repr(k) for k, _ in kvs))
                continue
            rep.check(got[0] == want, 'dispatch', f.loc(), 'an element with %s is handled by %s' % (', '.join(repr(k) for k, _ in kvs), got[0]))
            call = [e for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0].split('.')[-1] in KINDS][0]
            rep.check(True if p.ret == call.a[3] else None if p.ret is not None and contains(p.ret, call.a[3]) else False, 'dispatch', f.loc(), 'the answer of %s is not passed on' % got[0])


def handed_keys(prog, m):
    """constant key sets of the remainders a handler of a box hands on for a fresh element"""
    if m is None:
        return []
    out = []
    eng = Engine(prog, opaque=opaque_set(prog, {m.qual}))
    eng.nomerge = True
    for p in eng.analyse(m):
        if p.raised or p.ret is None or p.ret[0] != 'dict':
            continue
        d = entry(p.state, p.ret, 'delayed')
        if not d or d[0] != 'dict':
            continue
        ls = layers(p.state, d)
        if all(l[0] == 'kv' and is_c(l[1]) for l in ls):
            keys = []
            for l in ls:
                if l[1][2] not in keys:
                    keys.append(l[1][2])
            if keys not in out and 'state' in keys:
                out.append(keys)
    return out


# ------------------------------------------------------------------ boxes
BOX = ('add_delayed', 'add_elements', 'process_add_ans', 'is_element_resetting', 'next_section', 'last_child_of_resetting', 'start_resetting')


def boxes(prog, rep):
    f = prog.func('PDFContentPart.run')
    c = prog.cls('PDFContentPart')
    for q in ('add_delayed', 'add_elements'):
        prog.func('PDFContentPart.' + q)
    thorough = rep.tier == 'thorough'
    for delayed in ((), ('d0',), ('d0', 'd1')):
        for n in range(0, 3):
            if len(delayed) + n > (3 if not thorough else 4):
                continue
            for root in (True, False):
                for cols, col, resetting in ((1, 0, False), (2, 0, False), (2, 1, False), (2, 1, True)):
                    if cols == 2 and len(delayed) + n > (2 if not thorough else 3):
                        continue
                    if len(delayed) + n == 0:
                        continue
                    rep.section('box', box, prog, rep, f, delayed, ['e%d' % i for i in range(n)], root, cols, col, resetting)


def box(prog, rep, f, delayed, elements, root, cols, col, resetting):
    mod = Model()

    def process(eng, st, recv, argmap, e):
        el = argmap.get(prog.func('PDFContentPart.process').args[1])
        if el is None or not is_c(el):
            mod.note(eng, st, e, 'process', el, None, None)
            return [(st, ('call', 'PDFContentPart.process', (recv,), (('element', el),), eng.new_id()))]
        level = el[2].count('+')
        if len([x for x in st.trace if x.kind == 'stub' and x.a[0] == 'process']) >= limit:
            eng.cut += 1
            return []
        again = any(x.kind == 'stub' and x.a[0] == 'reset' for x in st.trace)
        answers = [('done', [('delayed', NONE), ('next', C(False))])]
        if level < 1:
            r = C(el[2] + '+')
            answers.append(('next', [('delayed', r), ('next', C(True))]))
            if not again:
                answers.append(('flow', [('delayed', r), ('next', C(False)), ('flow', C(True))]))
        out = []
        for name, kvs in answers:
            s = st.copy()
            v = mod.maker(eng, s).d(kvs)
            mod.note(eng, s, e, 'process', el, name, None if name == 'done' else el[2] + '+')
            out.append((s, v))
        if el[2].startswith('e'):
            for a in ('interrupt', 'break', 'partial_next'):
                trial = st.heap.get(('a', SELF, 'resetting')) == C(True)
                if a == 'break' and root and cols == 1 or again and a == 'partial_next' or trial and a == 'interrupt':
                    continue
                s = st.copy()
                if a == 'partial_next':
                    if root and not (cols == 2 and s.heap.get(('a', SELF, 'column')) == C(0)):
                        continue
                    if cols == 2 and s.heap.get(('a', SELF, 'column')) == C(0):
                        # what is left of the inner box goes on in the next column
                        s.heap[('a', SELF, 'column')] = C(1)
                        s.heap[('a', SELF, 'partial_children_memory')] = mod.maker(eng, s).l([S('memory')])
                if a == 'break' and trial:
                    # the inner box reached the end of the last column through next_section of this one
                    s.heap[('a', SELF, 'minim_forward')] = C(True)
                elif a == 'break' and cols > 1:
                    s.heap[('a', SELF, 'will_reset')] = C(True)
                mod.note(eng, s, e, 'process', el, a, None)
                out.append((s, C(a)))
        return out

    def reset(eng, st, recv, argmap, e):
        out = []
        for s, v in eng.run_body(prog.func('PDFContentPart.reset'), argmap, st):
            d = s.heap.get(('a', SELF, 'delayed'))
            i = s.heap.get(('a', SELF, 'element_index'))
            mod.note(eng, s, e, 'reset', v[2] if is_c(v) else None, consts(s, d) if d is not None else None, i)
            out.append((s, v))
        return out

    nxt = prog.func('PDFContentPart.next_section')

    def next_section(eng, st, recv, argmap, e):
        if recv == SELF:
            return eng.run_body(nxt, argmap, st)
        out = []
        for a in ('interrupt', 'break', 'partial_next', None):
            s = st.copy()
            out.append((s, C(a) if a else mod.maker(eng, s).d([('min_x', S('left')), ('min_y', S('top'))])))
        return out

    c = prog.cls('PDFContentPart')
    keep = {'PDFContentPart.' + x for x in BOX} | {f.qual}
    keep |= {m.qual for m in c.methods.values() if m.name not in ('reset', 'process', 'setup', 'save_indexes') and not m.name.startswith('process_')}
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    eng.nomerge = True
    eng.unwind = 5
    limit = 2 * (len(delayed) + len(elements)) + (2 if not resetting else 1)
    eng.stubs = {'PDFContentPart.process': process, 'PDFContentPart.reset': reset, nxt.qual: next_section}
    st = State()
    mk = Maker(st)
    heap(st, delayed=mk.l([C(x) for x in delayed]), elements=mk.l([C(x) for x in elements]), element_index=C(0), section_element_index=C(0),
         section_delayed=mk.l([C(x) for x in delayed]), cols_n=C(cols), column=C(col), resetting=C(resetting), will_reset=C(False),
         partial_children_memory=NONE, children_memory=mk.l([]), is_root=C(root))
    if resetting:
        # the trial is about to settle: a further one only when this one turns out too short
        heap(st, minim_diff=C(1), minim_diff_last=C(1.5), minim_forward=C(False))
    else:
        heap(st, minim_diff=NONE, minim_diff_last=NONE, minim_forward=NONE)
    if root:
        heap(st, parent=NONE)
    else:
        st.facts[('isnone', ('attr', SELF, 'parent', 0))] = False
        st.facts[('truthy', ('attr', SELF, 'parent', 0))] = True
    parts = eng.analyse(f, state=st)
    rep.functions |= eng.analysed
    rep.count('sequences of answers followed through a box', len(parts))
    for p in parts:
        if p.raised:
            continue
        judge_box(rep, f, p, delayed, elements, root)


def judge_box(rep, f, p, delayed, elements, root):
    pending = list(delayed) + list(elements)
    section = list(pending)
    story = []
    for e, ctx in all_events(p.trace):
        if e.kind == 'stub' and e.a[0] == 'process':
            el, ans, rem = e.a[1:]
            if ans is None:
                rep.unk('box', f.loc(), 'element %s' % (show(el)[:40] if el else el))
                return
            story.append('%s: %s' % (el[2], ans))
            if el[2] not in pending:
                rep.bad('box', f.loc(), 'an element is laid out again after it was finished or handed on (%s)' % '; '.join(story))
                return
            if ans == 'done':
                pending.remove(el[2])
            elif rem:
                pending[pending.index(el[2])] = rem
        elif e.kind == 'stub' and e.a[0] == 'reset':
            if e.a[1] is None:
                rep.unk('box', f.loc(), 'trial')
                return
            if e.a[1]:
                pending = list(section)
                story.append('columns start again')
                if e.a[2] is not None and e.a[3] is not None and is_c(e.a[3]):
                    got = e.a[2] + list(elements[e.a[3][2]:])
                    rep.check(got == section, 'box', f.loc(), 'another trial of the columns starts with %s where %s are due (%s)' % (
                        ', '.join(got) or 'nothing', ', '.join(section), '; '.join(story)))
                    if got != section:
                        return
        elif e.kind == 'write' and e.a[0] == SELF and e.a[1] == 'section_element_index':
            section = list(pending)
        elif e.kind in ('loop',):
            rep.unk('box', f.loc(), 'loop')
            return
    if p.ret is None or not is_c(p.ret):
        rep.unk('box', f.loc(), 'answer %s' % (show(p.ret)[:40] if p.ret else None))
        return
    story = '; '.join(story)
    if p.ret[2] == 'continue':
        rep.check(not pending, 'box', f.loc(), 'a box is reported as done though %s remain%s (%s)' % (' and '.join(pending), 's' if len(pending) == 1 else '', story))
        return
    if p.ret[2] == 'interrupt' and root:
        if any(a[0] == 'process' and a[2] == 'interrupt' for a in stubs_of(p)):
            # the inner box saved the position through its parents
            return
        d = field(p, 'section_delayed')
        i = field(p, 'section_element_index')
        d = consts(p.state, d) if d is not None else None
        if d is None or i is None or not is_c(i):
            rep.unk('box', f.loc(), 'position saved')
            return
        got = d + list(elements[i[2]:])
        rep.check(sorted(got) == sorted(pending), 'box', f.loc(), 'the next page goes on with %s where %s remain (%s)' % (
            ', '.join(got) or 'nothing', ', '.join(pending) or 'nothing', story))
    elif p.ret[2] == 'interrupt':
        rep.ok('box', f.loc())


def content_flag(prog, rep):
    f = prog.func('PDFContent.run')
    mod = Model()

    def inner(eng, st, recv, argmap, e):
        out = []
        for a in loop_answers(prog):
            s = st.copy()
            mod.note(eng, s, e, 'run', C(a))
            out.append((s, C(a)))
        return out
    eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
    eng.nomerge = True
    eng.stubs = {'PDFContentPart.run': inner}
    st = State()
    heap(st, **{FLAG: C(False)})
    for p in eng.analyse(f, state=st):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        got = [a[1][2] for a in stubs_of(p)]
        v = field(p, FLAG)
        if len(got) != 1 or v is None or not is_c(v):
            rep.unk('flag', f.loc(), 'content box')
            continue
        rep.check(bool(v[2]) == (got[0] == 'continue'), 'flag', f.loc(), 'a content box whose parts answered %r is %sfinished' % (got[0], '' if v[2] else 'not '))


# ------------------------------------------------------------------ tables
def fresh_dict(mod, eng, s, kvs):
    return mod.maker(eng, s).d(kvs)


def table_rows(prog, rep):
    f = prog.func('PDFTable.run')
    row = prog.func('PDFTable.add_row')
    for n in (0, 1, 2):
        for index in range(n + 1):
            for held in ({}, {0: 'x'}, {1: 'y'}):
                if held and index >= n:
                    continue
                rep.section('rows', rows, prog, rep, f, row, n, index, held)


def rows(prog, rep, f, row, n, index, held):
    mod = Model()
    st = State()
    mk = Maker(st)
    content = [mk.l([C('r%dc0' % i), C('r%dc1' % i)]) for i in range(n)]

    def add_row(eng, st, recv, argmap, e):
        r = argmap.get(row.args[1])
        flag = argmap.get(row.args[2]) if len(row.args) > 2 else None
        items = None
        if r is not None and r[0] == 'list':
            items = st.heap.get(('L', r[1]))
        if r is not None and r[0] == 'tuple':
            items = r[1]
        out = []
        for ans, left in (('continue', {}), ('continue', {1: 's'}), ('interrupt', {0: 'z'}), ('interrupt', {0: 'z', 1: 's'}), ('cancel', {1: 's'})):
            s = st.copy()
            s.heap[('a', SELF, 'delayed')] = mod.maker(eng, s).d([(k, C(v)) for k, v in left.items()])
            mod.note(eng, s, e, 'row', items, flag, ans, left)
            out.append((s, C(ans)))
        return out
    eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
    eng.nomerge = True
    eng.unwind = 4
    eng.stubs = {row.qual: add_row}
    heap(st, content=mk.l(content), delayed=mk.d([(k, C(v)) for k, v in held.items()]), current_index=C(index), cols_count=C(2), **{FLAG: C(False)})
    parts = eng.analyse(f, state=st)
    rep.functions |= eng.analysed
    rep.count('sequences of answers followed through a table', len(parts))
    for p in parts:
        if p.raised:
            continue
        at = index
        left = dict(held)
        stopped = False
        story = []
        bad = False
        for a in stubs_of(p):
            if a[0] != 'row':
                continue
            items, flag, ans, after = a[1:]
            if items is None or any(not is_c(x) for x in items):
                rep.unk('rows', f.loc(), 'row')
                bad = True
                break
            vals = [x[2] for x in items]
            if stopped:
                rep.bad('rows', f.loc(), 'a row is added after one that did not fit (%s)' % '; '.join(story))
                bad = True
                break
            if not story and held:
                want = [held.get(0), held.get(1)]
                rep.check(vals == want, 'rows', f.loc(), 'the row that was interrupted goes on with %s where %s is left' % (vals, want))
                rep.check(True if flag == C(True) else False if flag is not None and is_c(flag) else None, 'rows', f.loc(), 'the row that was interrupted is treated as a new one')
            else:
                want = ['r%dc0' % at, 'r%dc1' % at]
                rep.check(vals == want, 'rows', f.loc(), 'row %s is added where row %d is due (%s)' % (vals, at, '; '.join(story)))
                if flag is not None:
                    rep.check(False if flag == C(True) else True if is_c(flag) else None, 'rows', f.loc(), 'a new row is treated as one that was interrupted')
            story.append('row %d: %s' % (at, ans))
            left = after
            if ans == 'continue':
                at += 1
            else:
                stopped = True
        if bad:
            continue
        v, i = field(p, FLAG), field(p, 'current_index')
        if v is None or not is_c(v) or i is None or not is_c(i):
            rep.unk('flag', f.loc(), 'table')
            continue
        rep.check(i[2] == at, 'rows', f.loc(), 'the table goes on with row %s where row %d is due (%s)' % (i[2], at, '; '.join(story)))
        done = at >= n and not left
        rep.check(bool(v[2]) == done, 'flag', f.loc(), 'a table with %d of %d rows added and %d cells left is %sfinished (%s)' % (at, n, len(left), '' if v[2] else 'not ', '; '.join(story)))


def table_row(prog, rep):
    f = prog.func('PDFTable.add_row')
    cell = prog.func('PDFTable.add_cell')
    for held in ({}, {0: 1}, {1: 1}):
        mod = Model()
        st = State()
        mk = Maker(st)

        def span(st, mod, eng, s, left):
            return mod.maker(eng, s).d(left)

        def add_cell(eng, st, recv, argmap, e):
            col = argmap.get(cell.args[1])
            out = []
            if col is None or not is_c(col):
                mod.note(eng, st, e, 'cell', None, None, None, None)
                return [(st, S('moved'))]
            for ans in ('done', 'left', 'spanning', 'covered'):
                s = st.copy()
                k = col[2]
                now = s.heap[('a', SELF, 'delayed')]
                if ans == 'done':
                    s.heap[('D', now[1])] = tuple(l for l in layers(s, now) if l[1] != C(k))
                elif ans in ('left', 'spanning'):
                    rem = mod.maker(eng, s).d([('colspan', C(1)), ('rowspan', C(1)), ('row', C(0))])
                    s.heap[('D', now[1])] = tuple(l for l in layers(s, now) if l[1] != C(k)) + (('kv', C(k), rem),)
                if ans == 'spanning':
                    sp = s.heap[('a', SELF, 'rowspan')]
                    s.heap[('D', sp[1])] = layers(s, sp) + (('kv', C(k), S('span')),)
                mod.note(eng, s, e, 'cell', k, argmap.get(cell.args[2]), argmap.get(cell.args[3]) if len(cell.args) > 3 else None, ans)
                out.append((s, C(ans == 'covered')))
            return out
        eng = Engine(prog, opaque=opaque_set(prog, {f.qual}))
        eng.nomerge = True
        eng.unwind = 3
        eng.stubs = {cell.qual: add_cell}
        cells = {k: mk.d([('colspan', C(1)), ('rowspan', C(1)), ('row', C(0))]) for k in held}
        heap(st, delayed=mk.d(list(cells.items())), rowspan=mk.d([]), cols_count=C(3), fills_mem=mk.d([]), heights_mem=mk.d([]))
        rowt = mk.l([C('a'), C('b'), C('c')])
        parts = eng.analyse(f, args={f.args[1]: rowt, f.args[2]: C(bool(held))}, state=st)
        rep.functions |= eng.analysed
        rep.count('sequences of answers followed through a row', len(parts))
        for p in parts:
            if p.raised:
                continue
            cs = [a for a in stubs_of(p) if a[0] == 'cell']
            if any(a[1] is None for a in cs):
                rep.unk('rows', f.loc(), 'cells of a row')
                continue
            rep.check([(a[1], a[2]) for a in cs] == [(0, C('a')), (1, C('b')), (2, C('c'))], 'rows', f.loc(), 'cells %s of a row with 3 cells are added' % [(a[1], show(a[2])) for a in cs])
            for a in cs:
                if a[3] is not None:
                    rep.check(a[3] == C(bool(held)) if is_c(a[3]) else None, 'rows', f.loc(), 'cells of %s row are treated as those of %s' % (
                        ('an interrupted', 'a new one') if held else ('a new', 'an interrupted one')))
            left = set(held)
            spanning = set()
            for a in cs:
                if a[4] == 'done':
                    left.discard(a[1])
                elif a[4] in ('left', 'spanning'):
                    left.add(a[1])
                if a[4] == 'spanning':
                    spanning.add(a[1])
            if p.ret is None or not is_c(p.ret):
                rep.unk('rows', f.loc(), 'answer of a row')
                continue
            story = ', '.join('cell %d %s' % (a[1], a[4]) for a in cs)
            if p.ret[2] == 'continue':
                rep.check(not (left - spanning), 'rows', f.loc(), 'the next row is added though this one is not finished (%s)' % story)
            elif p.ret[2] == 'interrupt':
                rep.check(bool(left), 'rows', f.loc(), 'a row with nothing left over is added again on the next page (%s)' % story)
            d = field(p, 'delayed')
            if d is not None and d[0] == 'dict':
                got = {l[1][2] for l in layers(p.state, d) if l[0] == 'kv' and is_c(l[1])} - {l[1][2] for l in layers(p.state, d) if l[0] == 'del' and is_c(l[1])}
                rep.check(got == left, 'rows', f.loc(), 'of cells %s left over %s are kept (%s)' % (sorted(left), sorted(got), story))


def table_cell(prog, rep):
    f = prog.func('PDFTable.add_cell')
    c = prog.cls('PDFTable')
    hs = [m for m in c.methods.values() if m.name in KINDS]
    if len(hs) < 3:
        raise AnchorMissing('PDFTable.process_*')
    keep = {f.qual} | {m.qual for m in c.methods.values() if m.name in ('_is_delayed_type', 'is_type', 'get_cell_style') or
                       m.name not in KINDS and not makes_layout(prog, m) and not writes_spans(m)}
    forms = [([('.', C('x'))], 'process_text', False), ([('image', C('x'))], 'process_image', False), ([('content', S('els'))], 'process_content', False),
             ([('table', S('rows'))], 'process_table', False)]
    for kind, name in (('text', 'process_text'), ('image', 'process_image'), ('content', 'process_content'), ('table', 'process_table')):
        forms.append(([('delayed', S('layout')), ('type', C(kind)), ('state', S('state')), ('cell_style', S('cs')), ('colspan', C(2)), ('rowspan', C(3)), ('row', C(4))], name, True))
    for kvs, want, cont in forms:
        rep.section('rows', one_cell, prog, rep, f, hs, keep, kvs, want, cont)


def writes_spans(m):
    return m.name in ('add_row', 'run', '__init__', 'setup', 'process_borders', 'get_border', 'get_cell_dimensions', '_setup_cell_fill', 'setup_borders', 'setup_fills', 'set_default_border')


def one_cell(prog, rep, f, hs, keep, kvs, want, cont):
    mod = Model()

    def answering(h):
        def stub(eng, st, recv, argmap, e):
            out = []
            for done in (True, False):
                s = st.copy()
                mod.note(eng, s, e, 'cell', h.name, dict(argmap), done)
                out.append((s, ('tuple', (S('height'), C(done)))))
            return out
        return stub
    st = State()
    mk = Maker(st)
    el = mk.d(kvs)
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    eng.nomerge = True
    eng.stubs = {h.qual: answering(h) for h in hs}
    eng.stubs['PDFTable.is_span'] = lambda eng, st, recv, argmap, e: [(st, C(False))]
    before = mk.d([('cell_style', S('cs0'))])
    heap(st, delayed=mk.d([(1, before)]), current_index=C(5), rowspan=mk.d([]), fills_mem=mk.d([]), fills_defs=mk.d([]), colspan=C(0))
    parts = eng.analyse(f, args={f.args[1]: C(1), f.args[2]: el, f.args[3]: C(cont)}, state=st)
    rep.functions |= eng.analysed
    what = 'a %s cell with %s' % ('continued' if cont else 'new', ', '.join(repr(k) for k, _ in kvs[:2]))
    for p in parts:
        if p.raised:
            continue
        cs = [a for a in stubs_of(p) if a[0] == 'cell']
        if len(cs) != 1:
            rep.check(False if not cs and not any(e.kind == 'callv' for e in p.trace) else None, 'dispatch', f.loc(), '%s is laid out %d times' % (what, len(cs)))
            continue
        _, name, args, done = cs[0]
        rep.check(name == want, 'dispatch', f.loc(), '%s is laid out by %s' % (what, name))
        d = field(p, 'delayed')
        if d is None or d[0] != 'dict':
            rep.unk('rows', f.loc(), 'delayed cells')
            continue
        got = entry(p.state, d, 1)
        if got is None:
            rep.unk('rows', f.loc(), 'delayed cell')
            continue
        if done:
            rep.check(got is False, 'rows', f.loc(), '%s that is finished is added again on the next page' % what)
            continue
        if got is False:
            rep.bad('rows', f.loc(), '%s that does not fit is dropped' % what)
            continue
        given = [v for v in args.values() if v == got]
        rep.check(bool(given) and got != before, 'rows', f.loc(), '%s that does not fit: what its handler handed on is not kept' % what)
        row = entry(p.state, got, 'row')
        if row is not None and row is not False and is_c(row):
            rep.check(row == C(4 if cont else 5), 'rows', f.loc(), '%s started in row %s' % (what, row[2]))
        for k, v in (('colspan', 2), ('rowspan', 3)):
            x = entry(p.state, got, k)
            if cont and x is not None and x is not False and is_c(x):
                rep.check(x == C(v), 'rows', f.loc(), '%s that covers %d %s goes on with %s' % (what, v, 'columns' if k == 'colspan' else 'rows', x[2]))
            if x is False:
                rep.bad('rows', f.loc(), '%s that does not fit loses its %s' % (what, k))
        if cont:
            x = entry(p.state, got, 'cell_style')
            if x is False:
                rep.bad('rows', f.loc(), '%s that does not fit loses its style' % what)


# ------------------------------------------------------------------ paragraphs
def paragraph(prog, rep):
    """PDFTextBase.run: finished only when every part was laid out and the last line was drawn"""
    f = prog.func('PDFTextBase.run')
    part = prog.func('PDFTextBase.add_part')
    line = prog.func('PDFTextBase.add_current_line')
    mod = Model()
    for n in (1, 2, 3):
        for brs in ((), (0,), (1,), (0, 1)):
            if any(b >= n for b in brs):
                continue
            for start in range(n):
                st = State()
                mk = Maker(st)
                items = [mk.d([('type', C('br'))]) if i in brs else mk.d([('text', C('t%d' % i))]) for i in range(n)]

                def add_part(eng, st, recv, argmap, e):
                    out = []
                    for a in (True, False):
                        s = st.copy()
                        mod.note(eng, s, e, 'part', argmap.get(part.args[1]), argmap.get(part.args[2]) if len(part.args) > 2 else None, a)
                        out.append((s, C(a)))
                    return out

                def add_line(eng, st, recv, argmap, e):
                    out = []
                    for a in (True, False):
                        s = st.copy()
                        mod.note(eng, s, e, 'line', (s.heap.get(('a', SELF, 'last_part_added')), s.heap.get(('a', SELF, 'last_word_added'))), None, a)
                        out.append((s, C(a)))
                    return out
                eng = Engine(prog, opaque=opaque_set(prog, {f.qual, 'PDFTextBase.init'}))
                eng.nomerge = True
                eng.unwind = 4
                eng.stubs = {part.qual: add_part, line.qual: add_line}
                if prog.has_func('PDFTextBase.setup_list'):
                    eng.stubs['PDFTextBase.setup_list'] = lambda eng, st, recv, argmap, e: [(st, NONE)]
                heap(st, content=mk.l(items), last_part=C(start), last_word=C(0), last_part_added=C(start), last_word_added=C(3), **{FLAG: C(False)})
                parts = eng.analyse(f, state=st)
                rep.functions |= eng.analysed
                rep.count('sequences of answers followed through a paragraph', len(parts))
                for p in parts:
                    if p.raised:
                        continue
                    judge_text(rep, f, p, items, brs, start)


def judge_text(rep, f, p, items, brs, start):
    at = start
    failed = False
    last_line = None
    # which part comes next has to be known, otherwise the calls are those of any number of rounds
    if any((a[1] not in items or not (a[2] is None or is_c(a[2]))) if a[0] == 'part' else any(v is not None and not is_c(v) for v in a[1]) for a in stubs_of(p)):
        rep.unk('words', f.loc(), 'part')
        return
    for a in stubs_of(p):
        if failed:
            rep.bad('words', f.loc(), 'layout goes on after a line that did not fit')
            return
        if a[0] == 'part':
            while at in brs:
                rep.bad('words', f.loc(), 'a line break is skipped')
                return
            if a[1] not in items:
                rep.unk('words', f.loc(), 'part')
                return
            i = items.index(a[1])
            if i != at or i in brs:
                rep.bad('words', f.loc(), 'part %d is laid out where part %d is due' % (i, at))
                return
            if a[2] is not None and is_c(a[2]):
                rep.check(a[2] == C(i), 'words', f.loc(), 'part %d is laid out as part %s' % (i, a[2][2]))
            failed = not a[3]
            at += 1
        if a[0] == 'line':
            if at in brs:
                lp, lw = a[1]
                at += 1
                if lp is not None and is_c(lp):
                    rep.check(lp == C(at), 'words', f.loc(), 'after a line break in part %d the paragraph goes on with part %s' % (at - 1, lp[2]))
                if lw is not None and is_c(lw):
                    rep.check(lw == C(0), 'words', f.loc(), 'after a line break the paragraph goes on with word %s' % lw[2])
                last_line = None
            else:
                last_line = a[3]
            failed = not a[3]
    v = field(p, FLAG)
    if v is None or not is_c(v):
        rep.unk('flag', f.loc(), 'paragraph')
        return
    done = not failed and at == len(items) and last_line is True
    if v[2] and not done:
        rep.bad('flag', f.loc(), 'a paragraph is reported as finished though %s' % ('a line did not fit' if failed else 'part %d of %d is left' % (at, len(items)) if at < len(items) else 'its last line was not drawn'))
    elif not v[2] and not failed:
        rep.bad('flag', f.loc(), 'a paragraph that fits is not reported as finished')
    else:
        rep.ok('flag', f.loc())


def part_words(prog, rep):
    """the position kept when a line does not fit is right after the last word of the last line drawn"""
    f = prog.func('PDFTextBase.add_part')
    line = prog.func('PDFTextBase.add_current_line')
    word = prog.func('PDFTextLine.add_word')
    out_line = prog.func('PDFTextBase.add_line_to_stream')
    import itertools
    words = ['a', ' ', 'b', ' ', 'c']
    lens = (3, 5) if rep.tier == 'thorough' else (3, 4)
    for n in lens:
        ws = words[:n]
        for start in (0, 1):
            rep.section('words', walk_words, prog, rep, f, line, word, out_line, ws, start)
        # the words of the part before are in the line that is being filled
        rep.section('words', walk_words, prog, rep, f, line, word, out_line, ws, 0, ((0, 0), (0, 3), (0, 1)))


def walk_words(prog, rep, f, line, word, out_line, ws, start, before=None):
    mod = Model()

    def add_word(eng, st, recv, argmap, e):
        w = argmap.get(word.args[1])
        out = []
        if w is None or not is_c(w):
            mod.note(eng, st, e, 'word', None, None)
            return [(st, S('answer'))]
        for a in (('ignored', 'added') if w[2] == ' ' else ('preadded', 'finished', 'added')):
            s = st.copy()
            mod.note(eng, s, e, 'word', w[2], a)
            kvs = [('status', C(a))]
            if a == 'finished':
                kvs.append(('new_line', S('line%d' % len([x for x in s.trace if x.kind == 'stub']))))
            out.append((s, mod.maker(eng, s).d(kvs)))
        return out

    def stream(eng, st, recv, argmap, e):
        mod.note(eng, st, e, 'drawn', argmap.get(out_line.args[1]), argmap.get(out_line.args[2]) if len(out_line.args) > 2 else None)
        return [(st, NONE)]
    st = State()
    mk = Maker(st)
    part = mk.d([('text', mk.l([C(w) for w in ws]))])
    eng = Engine(prog, opaque=opaque_set(prog, {f.qual, line.qual}))
    eng.nomerge = True
    eng.unwind = 6
    eng.stubs = {word.qual: add_word, out_line.qual: stream}
    for q in ('PDFTextLine.add_line_part', 'PDFTextBase.setup_list'):
        if prog.has_func(q):
            eng.stubs[q] = lambda eng, st, recv, argmap, e: [(st, S('line part'))]
    eng.types[S('first line')] = 'PDFTextLine'
    for i in range(12):
        eng.types[S('line%d' % i)] = 'PDFTextLine'
    # where the paragraph was started (or goes on), where its last line ended, and
    # where the last complete word in the current line ends
    base, inl, drn = before or ((1, start),) * 3
    pos = {k + sfx: C(v[i]) for sfx, v in (('', base), ('_added', inl), ('_line', drn)) for i, k in enumerate(('last_part', 'last_word'))}
    heap(st, content=mk.l([S('p0'), part, S('p2')]), current_line=S('first line'), list_setup_done=C(False), list_text=NONE, pdf=NONE, **pos)
    parts = eng.analyse(f, args={f.args[1]: part, f.args[2]: C(1)}, state=st)
    rep.functions |= eng.analysed
    rep.count('sequences of answers followed through the words of a part', len(parts))
    for p in parts:
        if p.raised:
            continue
        at = start                 # next word due
        in_line = inl              # words before this one are in the current line (or drawn)
        drawn = drn
        story = []
        finished = None
        for a in stubs_of(p):
            if a[0] == 'word':
                if a[1] is None:
                    at = None
                    break
                if at >= len(ws) or ws[at] != a[1]:
                    rep.bad('words', f.loc(), 'word %r is laid out where %r is due (%s)' % (a[1], ws[at] if at < len(ws) else None, ', '.join(story)))
                    at = None
                    break
                at += 1
                story.append('%s %s' % (repr(a[1]), a[2]))
                if a[2] == 'added':
                    in_line = (1, at)
                finished = a[2] == 'finished'
            elif a[0] == 'drawn':
                drawn = in_line
                finished = None
                story.append('line drawn')
        if at is None:
            continue
        if p.ret is None or not is_c(p.ret):
            rep.unk('words', f.loc(), 'answer of a part')
            continue
        if p.ret[2]:
            rep.check(at == len(ws), 'words', f.loc(), 'a part is left after %d of %d words (%s)' % (at, len(ws), ', '.join(story)))
            rep.check(not finished, 'words', f.loc(), 'a line that is full is not drawn (%s)' % ', '.join(story))
            lw = field(p, 'last_word')
            rep.check(lw == C(0) if lw is not None and is_c(lw) else None, 'words', f.loc(), 'the next part starts with word %s' % (lw[2] if lw is not None and is_c(lw) else '?'))
            for k, want in (('last_part_line', drawn[0]), ('last_word_line', drawn[1])):
                v = field(p, k)
                if v is not None and is_c(v) and 'line drawn' in story:
                    rep.check(v == C(want), 'words', f.loc(), 'after the last line drawn the paragraph would go on with %s %s where %s %d is due (%s)' % (
                        k.split('_')[1], v[2], k.split('_')[1], want, ', '.join(story)))
        else:
            lp, lw = field(p, 'last_part'), field(p, 'last_word')
            if lp is None or lw is None or not is_c(lp) or not is_c(lw):
                rep.unk('words', f.loc(), 'position')
                continue
            rep.check((lp[2], lw[2]) == drawn, 'words', f.loc(), 'a paragraph goes on with word %s of part %s where word %d of part %d is due (%s)' % (lw[2], lp[2], drawn[1], drawn[0], ', '.join(story)))
            cl = field(p, 'current_line')


# ------------------------------------------------------------------ pages
def page_opaque(prog, f):
    keep = {f.qual}
    for m in prog.cls('PDF').methods.values():
        if m.name not in ('_text', '_table', '_content', 'add_page', 'setup_page', '__init__', 'output', '_create_text', '_create_table', '_create_content'):
            if any(isinstance(n, (ast.While, ast.For)) for n in ast.walk(m.node)) and calls_layout(m):
                keep.add(m.qual)
    return opaque_set(prog, keep)


def calls_layout(m):
    return any(isinstance(n, ast.Attribute) and n.attr in ('_text', '_table', '_content', 'finished') for n in ast.walk(m.node))


def pages(prog, rep, q):
    f = prog.func(q)
    draw = prog.func('PDF._' + f.name)
    add = prog.func('PDF.add_page')
    mod = Model()

    def layout(eng, st, recv, argmap, e):
        c = argmap.get(draw.args[1])
        out = []
        first = not any(x.kind == 'stub' and x.a[0] == 'draw' for x in st.trace)
        o = S('layout')
        for done in (True, False):
            s = st.copy()
            mod.note(eng, s, e, 'draw', c, {k: v for k, v in argmap.items()}, done)
            s.heap[('a', o, FLAG)] = C(done)
            out.append((s, o))
        return out

    def page(eng, st, recv, argmap, e):
        mod.note(eng, st, e, 'page')
        return [(st, NONE)]
    eng = Engine(prog, opaque=page_opaque(prog, f))
    eng.nomerge = True
    eng.unwind = 3
    eng.stubs = {draw.qual: layout, add.qual: page}
    parts = eng.analyse(f)
    rep.functions |= eng.analysed
    for p in parts:
        if p.raised:
            continue
        evs = stubs_of(p)
        draws = [a for a in evs if a[0] == 'draw']
        rep.count('page loops followed', 1)
        if not draws:
            rep.unk('pages', f.loc(), 'no layout')
            continue
        rep.check(draws[-1][3], 'pages', f.loc(), '%s returns though something is left after %d pages' % (f.name, len(draws)))
        for a in draws[:-1]:
            rep.check(not a[3], 'pages', f.loc(), '%s goes on though everything is finished' % f.name)
        kinds = [a[0] for a in evs]
        want = ['draw'] + ['page', 'draw'] * (len(draws) - 1)
        rep.check(kinds == want, 'pages', f.loc(), 'what is left is laid out %s' % (
            'without a new page' if kinds.count('page') < len(draws) - 1 else 'on another page than the new one'))
        for i, a in enumerate(draws):
            c = a[1]
            if i == 0:
                rep.check(True if c == S(f.args[1]) else None, 'pages', f.loc(), 'content %s' % show(c)[:40])
            else:
                rep.check(True if c == S('layout') else False if c == S(f.args[1]) else None, 'pages', f.loc(), 'the new page starts the content again')


def drawn_object(prog, rep):
    """_text, _table and _content run a layout that is handed to them instead of making a new one, and return what they ran"""
    for q in ('PDF._text', 'PDF._table', 'PDF._content'):
        f = prog.func(q)
        keep = {f.qual}
        eng = Engine(prog, opaque=opaque_set(prog, keep))
        for p in eng.analyse(f):
            if p.raised:
                continue
            rep.functions |= eng.analysed
            runs = [unv(is_run(e)) for e, c in all_events(p.trace) if is_run(e) is not None]
            if len(runs) != 1 or p.ret is None:
                rep.unk('pages', f.loc(), '%d runs' % len(runs))
                continue
            rep.check(True if unv(p.ret) == runs[0] else False if is_c(p.ret) or p.ret[0] == 'obj' else None, 'pages', f.loc(), 'what is returned is not the layout that was run')
            mine = [v for fct, v in p.facts.items() if fct[0] == 'inst' and fct[1] == S(f.args[1])]
            if mine and mine[0]:
                rep.check(runs[0] == S(f.args[1]), 'pages', f.loc(), 'a layout that is to go on is not the one that is run')


def document(prog, rep):
    f = prog.func('PDFDocument._process_section')
    add = prog.func('PDFDocument._add_content')
    page = prog.func('PDF.add_page')
    mod = Model()
    SEC = S('box')

    def make(eng, st, recv, argmap, e):
        mod.note(eng, st, e, 'made')
        eng.types[SEC] = 'PDFContent'
        return [(st, SEC)]

    def content(eng, st, recv, argmap, e):
        out = []
        for done in (True, False):
            s = st.copy()
            mod.note(eng, s, e, 'draw', done)
            s.heap[('a', SEC, FLAG)] = C(done)
            out.append((s, NONE))
        return out

    def new_page(eng, st, recv, argmap, e):
        mod.note(eng, st, e, 'page')
        return [(st, NONE)]
    keep = {f.qual}
    for m in prog.cls('PDFDocument').methods.values():
        if m.name not in ('_add_content', '__init__', 'run', 'output', '_set_running_sections', '_process_footnotes') and not m.name.startswith(('_check', '_get', '_traverse')):
            keep.add(m.qual)
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    eng.unwind = 3
    eng.stubs = {'PDF._create_content': make, add.qual: content, page.qual: new_page, 'process_style': lambda eng, st, recv, argmap, e: [(st, mod.maker(eng, st).d([]))]}
    st = State()
    mk = Maker(st)
    heap(st, per_page=mk.l([]), style=mk.d([]), page_settings=mk.d([]))
    parts = eng.analyse(f, args={f.args[1]: mk.d([])}, state=st)
    rep.functions |= eng.analysed
    for p in parts:
        if p.raised:
            continue
        evs = [a for a in stubs_of(p)]
        draws = [a for a in evs if a[0] == 'draw']
        rep.count('page loops followed', 1)
        if not draws:
            rep.unk('pages', f.loc(), 'no layout')
            continue
        rep.check(draws[-1][1], 'pages', f.loc(), 'a section is left though something remains after %d pages' % len(draws))
        for a in draws[:-1]:
            rep.check(not a[1], 'pages', f.loc(), 'a section goes on though everything is finished')
        kinds = [a[0] for a in evs]
        rep.check(kinds == ['made'] + ['page', 'draw'] * len(draws), 'pages', f.loc(), 'sequence of pages and layouts: %s' % ' '.join(kinds))
    # every section
    g = prog.func('PDFDocument.run')
    eng = Engine(prog, opaque=opaque_set(prog, {g.qual}))
    eng.nomerge = True

    def section(eng, st, recv, argmap, e):
        mod.note(eng, st, e, 'section', argmap.get(f.args[1]))
        return [(st, NONE)]
    eng.stubs = {f.qual: section}
    st = State()
    mk = Maker(st)
    secs = [S('s0'), S('s1'), S('s2')]
    heap(st, sections=mk.l(secs))
    for p in eng.analyse(g, state=st):
        if p.raised:
            continue
        rep.functions |= eng.analysed
        got = [a[1] for a in stubs_of(p)]
        if any(e.kind == 'loop' for e in p.trace):
            rep.unk('pages', g.loc(), 'sections')
            continue
        rep.check(got == secs, 'pages', g.loc(), 'of three sections %s are laid out' % ([show(x) for x in got] or 'none'))
