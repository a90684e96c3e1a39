"""C05: page contents.  Every template that reaches PDFPage.add, directly or through the stream attributes of
paragraphs, is parsed as a regular language of PDF operators: operand counts and kinds, white space, nesting,
text objects, painted paths, number formats."""
import ast
import re

from .common import *
from ..access import callers, expr_type
from ..content import *

TECHNIQUE = ('abstract parsing of the content templates computed by value-flow analysis against the operator grammar of '
             'PDF page contents')

OPWORD = re.compile(r"(?:^|[\s)\]}])(?:%s)(?=$|[\s({/\[])" % '|'.join(re.escape(o) for o in OPS if len(o) > 1 or o in 'qQwmlSFfgGdJ'))


def has_operators(fi):
    doc = ast.get_docstring(fi.node, clean=False)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value != doc:
            v = n.value
            if len(v) < 200 and OPWORD.search(v) and (v.startswith(' ') or '{' in v or v in OPS) and \
                    re.search(r'(\{\}|\d|\)|q|Q)\s*(%s)\b' % '|'.join(re.escape(o) for o in OPS), v):
                return True
    return False


def returns_value(fi):
    return any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fi.node))


class Ctx:
    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.producers = {f.qual: f for f in prog.all_functions()
                          if returns_value(f) and has_operators(f) and f.name != '__str__' and f.kind in ('method', 'function', 'static')}
        self.shapes = {}
        self.attrmode = {}       # (class, attribute) -> set of modes
        self.needs = {}          # (function, parameter) -> set of modes

    def engine(self, own=None):
        e = Engine(self.prog, opaque=(set(self.producers) - {own}) | {'PDFPage.add', 'PDFTextBase.clean_words'} |
                   {f.qual for f in self.prog.all_functions() if f.name == 'encode_text'})
        e.nomerge = True
        return e


TYPES = {'part': 'PDFTextLinePart', 'line': 'PDFTextLine'}


def types_for(fi):
    return {a: TYPES[a] for a in fi.args if a in TYPES}


def run(prog, rep):
    rep.rule('grammar', 'every piece of page contents is a sequence of complete operators')
    rep.rule('space', 'pieces start with white space, so that they can follow each other')
    rep.rule('placement', 'text operators are placed in text objects and graphics outside them')
    rep.assumptions.append('widths, sizes and offsets are finite numbers below 1e16; font and image names contain no delimiters; '
                           'colours have one or three components (C26)')
    cx = Ctx(prog, rep)
    rep.count('functions that produce content templates', len(cx.producers))
    rep.section('grammar', color, cx)
    rep.section('grammar', roots, cx)
    rep.section('grammar', attributes, cx)


def color(cx):
    ci = cx.prog.cls('PDFColor')
    fi = cx.prog.func('PDFColor.__str__')
    eng = Engine(cx.prog)
    eng.nomerge = True
    n = 0
    for p in eng.analyse(fi):
        if p.raised or p.ret == NONE:
            continue
        n += 1
        parts = cat_parts(p.ret)
        judge(cx, eng, fi, parts, None, 'a colour', need_ws=False)
        if parts and first_ws(parts) is True and parts[-1][0] == 'lit' and parts[-1][1][-1] in WS:
            pass
    cx.rep.functions |= eng.analysed


def is_color(eng, prog, t):
    ty = eng.types.get(t)
    if ty is None and t[0] == 'attr':
        ty = prog.attr_type(eng.types.get(t[1]), t[2])
    return ty == 'PDFColor'


def judge(cx, eng, fi, parts, text, what, need_ws=True, owner=None, top=False):
    """parse one template; report"""
    rep = cx.rep

    def frag(t):
        if t[0] in ('obj', 'new') or is_color(eng, cx.prog, t):
            return 'any'
        if t == owner or (owner is not None and t[0] in ('head', 'out') and contains(t, owner)):
            return 'own'
        a = attr_of(cx, t)
        if a is not None:
            return 'own'
        return None

    def expand(t):
        if t[0] == 'call' and t[1] in cx.producers:
            return expansions(cx, t)
        if t[0] == 'call' and t[1].split('.')[-1] == 'encode_text':
            return None
        return None
    ps = Parser(eng.kinds, frag, expand, top, not fi.name.startswith('_'))
    try:
        res = ps.run(parts, text)
        for s in res:
            why = finished(ps, s)
            if why is None and text is not None and s.text != text:
                why = 'a text object is left %s' % ('open' if s.text else 'closed')
            if why:
                raise Bad(why)
        rep.count('operators parsed', ps.opcount)
        rep.count('numbers checked', ps.numbers)
        if ps.unsure:
            rep.unk('grammar', fi.loc(), '%s: %s' % (what, ps.unsure[0]))
        else:
            rep.ok('grammar', fi.loc() + ' (%s)' % what)
        if need_ws:
            w = first_ws_x(cx, parts, eng)
            if w is False:
                w = False if not cx.joined_by_ws() else True
            rep.check(w, 'space', fi.loc(), '%s does not start with white space: %r' % (what, lit_text(parts)[:30].replace('\0', '{}')))
    except Bad as e:
        rep.bad('grammar', fi.loc(), '%s: %s' % (what, e))
    except Unsure as e:
        rep.unk('grammar', fi.loc(), '%s: %s' % (what, e))
    return ps


def first_ws_x(cx, parts, eng):
    """first_ws with calls to producers expanded"""
    for i, p in enumerate(parts):
        if p[0] == 'hole' and p[1][0] == 'call' and p[1][1] in cx.producers:
            ex = expansions(cx, p[1])
            if ex is None:
                return None
            r = [first_ws_x(cx, e, sub) if e else first_ws_x(cx, tuple(parts[i + 1:]), eng) for e, sub in cx.shapes[p[1][1]][1]]
            return False if False in r else (None if None in r else True)
        if p[0] == 'hole':
            return False if is_color(eng, cx.prog, p[1]) or num_term(p[1], eng.kinds)[0] else None
        if p[0] == 'star':
            r = [first_ws_x(cx, a, eng) for a in p[2]]
            if False in r:
                return False
            if None in r:
                return None
            continue
        if p[1]:
            return p[1][0] in WS
    return True


def expansions(cx, call, depth=0):
    """templates of a call of a producer, with the arguments put in"""
    q = call[1]
    if q not in cx.shapes:
        cx.shapes[q] = None
        f = cx.producers[q]
        eng = cx.engine(q)
        try:
            parts = eng.analyse(f, types=types_for(f))
        except (TooComplex, RecursionError):
            return None
        cx.rep.functions |= eng.analysed
        sh = {}
        for p in parts:
            if p.raised or p.ret is None:
                continue
            if p.ret == NONE:
                sh = None
                break
            r = ret_parts(p)
            sh[canon(('cat', 's', tuple(r)), eng)] = (r, eng)
        cx.shapes[q] = (f, list(sh.values())) if sh is not None else None
    r = cx.shapes[q]
    if r is None:
        return None
    f, shapes = r
    bind = {}
    names = list(f.args)
    pos = list(call[2])
    if f.cls is not None and f.kind != 'static':
        bind[('sym', names[0])] = pos[0]
        pos = pos[1:]
        names = names[1:]
    for a, v in zip(names, pos):
        bind[('sym', a)] = v
    for k, v in call[3]:
        bind[('sym', k)] = v
    out = []
    for parts, eng in shapes:
        out.append(tuple(sub_parts(parts, bind)))
    return out


def ret_parts(p):
    """template returned; a partition that knows it to be empty returns nothing"""
    if p.facts.get(('truthy', p.ret)) is False or p.facts.get(('eq', C(''), p.ret)):
        return ()
    return cat_parts(p.ret) if p.ret[0] == 'cat' or is_c(p.ret) else (('hole', p.ret, ''),)


def canon(t, eng):
    """templates of the same shape are parsed once"""
    def g(p):
        if p[0] == 'lit':
            return p
        if p[0] == 'star':
            return ('star', frozenset(tuple(g(x) for x in a) for a in p[2])) + tuple(p[3:])
        v = num_term(p[1], eng.kinds)[0]
        if v:
            return ('num', p[2])
        return ('hole', p[1], p[2])
    return tuple(g(p) for p in cat_parts(t))


def sub_parts(parts, bind):
    def f(x):
        return bind.get(x)
    out = []
    for p in parts:
        if p[0] == 'hole':
            out.append(('hole', subst(p[1], bind.get if False else f), p[2]))
        elif p[0] == 'star':
            out.append(('star', p[1], tuple(tuple(sub_parts(a, bind)) for a in p[2])) + tuple(p[3:]))
        else:
            out.append(p)
    return out


def joined(prog):
    """contents are joined with white space, or stored with white space around them"""
    try:
        fi = prog.func('PDFPage.add')
        eng = Engine(prog)
        for p in eng.analyse(fi):
            for ev, stk in all_events(p.trace):
                if ev.kind == 'setitem':
                    ps = cat_parts(ev.a[2]) if ev.a[2][0] == 'cat' else ()
                    if not (ps and (ps[0][0] == 'lit' and ps[0][1][0] in WS or ps[-1][0] == 'lit' and ps[-1][1][-1] in WS)):
                        break
            else:
                continue
            break
        else:
            return True
        f2 = prog.func('parse_stream')
        for n in ast.walk(f2.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and \
                    isinstance(n.func.value, ast.Constant) and n.func.value.value and not n.func.value.value.strip():
                return True
    except (AnchorMissing, TooComplex):
        return None
    return False


def _joined(self):
    if not hasattr(self, '_j'):
        self._j = joined(self.prog)
    return self._j


Ctx.joined_by_ws = _joined


def attr_of(cx, t):
    """the term is a content attribute of a paragraph"""
    x = t
    if x[0] == 'head' or x[0] == 'out':
        x = x[2]
    if x[0] == 'attr' and (x[2] in ('text', 'graphics')) and x[1][0] == 'sym' and x[1][1] == 'self':
        return x[2]
    if x[0] == 'a' and x[1] == ('sym', 'self') and x[2] in ('text', 'graphics'):
        return x[2]
    return None


def is_page(prog, fi, e):
    ty = expr_type(prog, fi, e)
    if ty is None:
        return isinstance(e, (ast.Attribute, ast.Name)) and (e.attr if isinstance(e, ast.Attribute) else e.id) == 'page'
    return ty == 'PDFPage'


def roots(cx):
    prog, rep = cx.prog, cx.rep
    work = []
    for fi in prog.all_functions():
        if fi.qual == 'PDFPage.add':
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add' and \
                    len(n.args) + len(n.keywords) == 1 and is_page(prog, fi, n.func.value):
                work.append(fi)
                break
    n = 0
    for fi in work:
        eng = cx.engine()
        others = {f.qual for f in prog.all_functions()} - {fi.qual, 'subs'}
        keep = set()
        eng.opaque |= {q for q in others if q.split('.')[-1] in ('_used_font', '_add_or_get_font', 'add_image', 'run', '_content', '_text',
                                                                '_table', 'add_page', '_create_text', '_create_content', '_create_table')} - keep
        try:
            parts = eng.analyse(fi, types=types_for(fi))
        except TooComplex as e:
            rep.unk('grammar', fi.loc(), 'not analysed: %s' % e)
            continue
        done = set()
        for p in parts:
            for ev, stk in all_events(p.trace):
                if ev.kind == 'call' and ev.a[0] == 'PDFPage.add':
                    t = ev.a[2][0][1] if ev.a[2] else None
                    if t is None or t in done:
                        continue
                    done.add(t)
                    n += 1
                    ps = judge(cx, eng, fi, cat_parts(t) if t[0] == 'cat' or is_c(t) else (('hole', t, ''),), False, 'contents added to a page', need_ws=True, top=True)
                    for h, modes in ps.need.items():
                        if h[0] == 'sym':
                            cx.needs.setdefault((fi, h[1]), set()).update(modes)
        if done:
            rep.functions |= eng.analysed
    rep.count('contents added to pages', n)
    link(cx)


def link(cx):
    """parameters of the function that adds a paragraph are filled from the paragraph's result"""
    prog, rep = cx.prog, cx.rep
    f = prog.cls('PDFTextBase').getters.get('result')
    keys = {}
    if f is not None:
        eng = Engine(prog)
        for p in eng.analyse(f):
            if p.ret is not None and p.ret[0] == 'dict':
                for k in ('text_stream', 'graphics_stream'):
                    v = eng.dict_get(p.ret, C(k), None, p.state)
                    if v is not None and v[0] == 'attr' and v[1] == ('sym', 'self'):
                        keys[k] = v[2]
    for (fi, par), modes in cx.needs.items():
        if par in keys:
            cx.attrmode.setdefault(keys[par], set()).update(m for m in modes if m)
    # the paragraph's own stream property
    g = prog.cls('PDFTextBase').getters.get('stream')
    if g is not None:
        eng = cx.engine()
        for p in eng.analyse(g):
            t = p.ret
            if t is None:
                continue
            for parts in (expansions(cx, t) or [] if t[0] == 'call' else [cat_parts(t)]):
                q = Parser(eng.kinds, lambda t: 'own' if attr_of(cx, t) else None, lambda t: None)
                try:
                    q.run(parts, False)
                except Bad as e:
                    rep.bad('grammar', g.loc(), 'stream of a paragraph: %s' % e)
                except Unsure:
                    continue
                for h, modes in q.need.items():
                    a = attr_of(cx, h)
                    if a:
                        cx.attrmode.setdefault(a, set()).update(m for m in modes if m)
    for a, modes in cx.attrmode.items():
        rep.check(len(modes) == 1, 'placement', prog.cls('PDFTextBase').methods.get('run', f).loc(),
                  'self.%s is placed both inside and outside of text objects' % a)


def attributes(cx):
    prog, rep = cx.prog, cx.rep
    n = 0
    for fi in prog.all_functions():
        if fi.cls is None or prog.cls('PDFTextBase') not in prog.mro(fi.cls):
            continue
        hit = False
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in cx.attrmode and \
                    isinstance(x.value, ast.Name) and x.value.id == 'self':
                hit = True
        if not hit:
            continue
        eng = cx.engine(fi.qual)
        parts = eng.analyse(fi, types=types_for(fi))
        rep.functions |= eng.analysed
        done = set()
        for p in parts:
            for ev, stk in all_events(p.trace):
                if ev.kind != 'write' or ev.a[0] != ('sym', 'self') or ev.a[1] not in cx.attrmode:
                    continue
                a = ev.a[1]
                mode = list(cx.attrmode[a])
                if len(mode) != 1:
                    continue
                t = ev.a[2]
                key = (a, canon(t, eng))
                if key in done:
                    continue
                done.add(key)
                ps = list(cat_parts(t)) if t[0] == 'cat' or is_c(t) else [('hole', t, '')]
                if ps and ps[0][0] == 'hole' and attr_of(cx, ps[0][1]) == a:
                    ps = ps[1:]
                elif ps:
                    if any(p_[0] == 'hole' and attr_of(cx, p_[1]) == a for p_ in ps):
                        rep.unk('grammar', fi.loc(ev.node), 'self.%s is not extended at its end' % a)
                        continue
                n += 1
                judge(cx, eng, fi, tuple(ps), mode[0] == 'text', 'what is added to self.%s' % a)
    rep.count('additions to paragraph streams', n)
