"""C21: elements mean the same in content boxes, groups and table cells."""
import ast
from .common import *

TECHNIQUE = ('abstract interpretation of each container\'s element handling on every element shape (text, image, table, box, group, number, nothing; '
             'options in the element\'s style, in the container\'s or nowhere, values symbolic): the object each path creates and where each of its '
             'arguments comes from')

SELF = ('sym', 'self')
LAYOUT = ('PDFText', 'PDFImage', 'PDFTable', 'PDFContent', 'PDFContentPart')
OPTS = ('text_align', 'line_height', 'indent', 'list_text', 'list_style', 'list_indent')
TOPTS = ('widths', 'borders', 'fills')
# value that means the same as not given
SAME = {'indent': 0}
NUMERIC = ('line_height', 'indent', 'list_indent')
V = ('sym', '$value')
CONTAINERS = {
    'PDFContentPart.process': ('a content box', ('text', 'dot', 'image', 'table', 'content', 'group', 'string', 'list', 'tuple', 'number', 'zero')),
    'PDFContentPart.process_group_element': ('a group', ('text', 'dot', 'image', 'table', 'string', 'list', 'tuple', 'number', 'zero')),
    'PDFTable.add_cell': ('a table cell', ('text', 'dot', 'image', 'table', 'content', 'string', 'list', 'tuple', 'number', 'zero', 'none')),
}
CLS = {'text': ('PDFText',), 'dot': ('PDFText',), 'image': ('PDFImage',), 'table': ('PDFTable',), 'content': ('PDFContent', 'PDFContentPart'),
       'group': ('group',)}
WORD = {'text': 'a text', 'dot': 'a text with a style string', 'image': 'an image', 'table': 'a table', 'content': 'a content box', 'group': 'a group',
        'string': 'a string', 'list': 'a list', 'tuple': 'a tuple', 'number': 'a number', 'zero': 'the number zero', 'none': 'an empty cell'}


def run(prog, rep):
    rep.rule('handler', 'every kind of element creates the object of its kind in every container that documents it')
    rep.rule('option', 'every paragraph option of the style in force reaches the paragraph under its own name')
    rep.rule('table', 'content, widths, borders and fills of a table element reach the table under their own names')
    rep.rule('image', 'source, extension and name of an image element reach the image')
    rep.rule('number', 'a number is treated as its text')
    rep.rule('passed', 'options given to a paragraph or table by call reach it, and what it was given is what it uses')
    for q, (what, kinds) in CONTAINERS.items():
        for kind in kinds:
            rep.section('handler', shape, prog, rep, q, what, kind)
    rep.section('number', numbers, prog, rep)
    rep.section('passed', passed, prog, rep)


# ------------------------------------------------------------------ shapes
class Maker:
    def __init__(self, st):
        self.st = st
        self.n = 900000

    def d(self, kvs):
        self.n += 1
        self.st.heap[('D', self.n)] = tuple(('kv', C(k), v) for k, v in kvs)
        return ('dict', self.n)

    def l(self, items):
        self.n += 1
        self.st.heap[('L', self.n)] = tuple(items)
        return ('list', self.n)


def constructs(prog, fi, names=LAYOUT):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            r = prog.resolve_name(fi.module, n.func.id)
            if r and r[0] == 'class' and r[1].name in names:
                return True
    return False


def self_calls(prog, fi):
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and fi.args and n.func.value.id == fi.args[0]:
            m = prog.find_method(fi.cls, n.func.attr)
            if m is not None:
                out.append((n, m))
    return out


def writes_self(fi):
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and fi.args and n.value.id == fi.args[0]
               for n in ast.walk(fi.node))


def looping(prog, fi, making):
    """a method that handles the elements of a list one after another"""
    for loop in ast.walk(fi.node):
        if isinstance(loop, (ast.For, ast.While)):
            for n in ast.walk(loop):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    m = prog.find_method(fi.cls, n.func.attr)
                    if m is not None and m.qual in making:
                        return True
    return False


def expand(prog, root):
    """methods of the container through which an element becomes an object, and pure helpers"""
    cls = root.cls
    making = {m.qual for m in cls.methods.values() if m.name != '__init__' and constructs(prog, m)}
    grown = True
    while grown:
        grown = False
        for m in cls.methods.values():
            if m.qual not in making and m.name != '__init__' and any(g.qual in making for _, g in self_calls(prog, m)) and not looping(prog, m, making):
                making.add(m.qual)
                grown = True
    runs = {m.qual for m in cls.methods.values() if m.name in ('run', 'setup', 'set_state', 'get_state', 'add_row')}
    pure = {m.qual for m in cls.methods.values() if m.kind not in ('getter', 'setter') and not writes_self(m) and
            any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(m.node)) and not is_geometry(m)}
    groups = {m.qual for m in cls.methods.values() if looping(prog, m, making)}
    return ((making | pure) - runs - groups) | {root.qual}, groups


def is_geometry(m):
    return m.name.startswith(('get_border', 'get_min', 'get_cell_dim', 'parse_range', 'parse_pos', 'compare', 'is_span'))


def opaque_set(prog, keep):
    out = set()
    for g in prog.all_functions():
        if g.qual in keep:
            continue
        if g.cls is None and g.name not in ('copy', 'build_pdf'):
            continue
        out.add(g.qual)
    return out


def analyse(prog, rep, root, element, st, style):
    keep, groups = expand(prog, root)
    eng = Engine(prog, opaque=opaque_set(prog, keep))
    args = {element_arg(root): element}
    for a in root.args:
        if a == 'inherited_style':
            args[a] = style
    st.heap[('a', SELF, 'style')] = style
    parts = eng.analyse(root, args=args, state=st)
    rep.functions |= eng.analysed
    return parts, groups


def element_arg(fi):
    if 'element' in fi.args:
        return 'element'
    raise AnchorMissing('%s: parameter element' % fi.qual)


def shape(prog, rep, q, what, kind):
    root = prog.func(q)
    for mode in ('own', 'inherited', 'none') if kind in ('text', 'dot', 'string', 'number') else ('own',) if kind in CLS else ('none',):
        st = State()
        mk = Maker(st)
        opts = [(o, ('sym', '$' + o)) for o in OPTS]
        inner = {'text': [('.', V)], 'dot': [('.b;s:4', V)], 'image': [('image', V), ('extension', ('sym', '$extension')), ('image_name', ('sym', '$image_name'))],
                 'table': [('table', V)] + [(t, ('sym', '$' + t)) for t in TOPTS], 'content': [('content', V)], 'group': [('group', V)]}.get(kind)
        if inner is None:
            if mode == 'own' and kind in ('string', 'number'):
                continue
            el = {'string': C('$text'), 'number': C(7), 'zero': C(0), 'none': NONE, 'list': mk.l([V]), 'tuple': ('tuple', (V,))}[kind]
        else:
            own = mk.d(opts) if mode == 'own' else mk.d([])
            el = mk.d(inner + [('style', own)])
        style = mk.d(opts if mode == 'inherited' else [])
        parts, groups = analyse(prog, rep, root, el, st, style)
        rep.count('element shapes', 1)
        done = [p for p in parts if not p.raised]
        if not [p for p in done if not skipped(p)]:
            # some other error may be what is raised
            rep.check(False if parts else None, 'handler', root.loc(), '%s is refused in %s' % (WORD[kind], what))
            continue
        for p in done:
            judge(prog, rep, root, p, kind, mode, what, el, groups)
        rep.count('paths', len(done))


def judge(prog, rep, root, p, kind, mode, what, el, groups):
    want = CLS.get(kind, ('PDFText',))
    news = [(e, ctx) for e, ctx in all_events(p.trace) if e.kind == 'new' and e.a[1] in LAYOUT]
    made = {e.a[1] for e, _ in news}
    if want == ('group',):
        calls = [e for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0] in groups]
        if calls:
            rep.check(True if any(v == el for c in calls for _, v in c.a[2]) else None, 'handler', calls[0].loc, 'group')
        else:
            rep.check(False if not opaque_use(p, el) else None, 'handler', root.loc(), '%s does nothing in %s' % (WORD[kind], what))
        return
    hit = [(e, ctx) for e, ctx in news if e.a[1] in want]
    if not hit:
        if skipped(p):
            return
        rep.check(False if made or not opaque_use(p, el) else None, 'handler', root.loc(),
                  '%s %s in %s%s' % (WORD[kind], 'becomes a %s' % '/'.join(sorted(made)) if made else 'does nothing', what, where(p)))
        return
    if made - set(want) - ({'PDFContentPart'} if 'PDFContent' in made else set()):
        rep.bad('handler', hit[0][0].loc, '%s also becomes a %s in %s' % (WORD[kind], '/'.join(made - set(want)), what))
    else:
        rep.ok('handler', hit[0][0].loc)
    for e, ctx in hit:
        st = ctx[-1][1] if ctx else p.state
        args = dict(e.a[2])
        if e.a[1] == 'PDFText':
            options(prog, rep, e, args, p, mode, what)
            content_of(rep, e, args.get('content'), kind, st, p, el, what)
        elif e.a[1] == 'PDFTable':
            one(rep, 'table', e, 'content', args.get('content'), V, p, 'the content of a table in ' + what)
            for t in TOPTS:
                one(rep, 'table', e, t, args.get(t), ('sym', '$' + t), p, 'the %s of a table in %s' % (t, what))
        elif e.a[1] == 'PDFImage':
            for a, v in zip(('image', 'extension', 'image_name'), (V, ('sym', '$extension'), ('sym', '$image_name'))):
                one(rep, 'image', e, a, args.get(a), v, p, 'the %s of an image in %s' % (a, what))


def skipped(p):
    """cells hidden by a span of another cell"""
    for f, b in p.facts.items():
        for x in subterms(f):
            if x[0] == 'call' and x[1].endswith('.is_span'):
                return b is True
    return False


def where(p):
    w = p.where()
    return ' where %s' % w[:120] if w else ''


def opaque_use(p, el):
    """the element was handed to something that was not expanded"""
    for e, _ in all_events(p.trace):
        if e.kind in ('call', 'mcall', 'ext', 'callv'):
            if any(contains(v, el) for a in e.a if isinstance(a, tuple) for v in flatten(a)):
                return True
    return False


def flatten(a):
    if a and isinstance(a[0], str):
        return [a]
    out = []
    for x in a:
        if isinstance(x, tuple):
            out += flatten(x)
    return out


def bare(t):
    while t is not None and t[0] == 'fn' and t[1] in ('copy', 'scopy', 'deepcopy') and len(t[2]) == 1:
        t = t[2][0]
    return t


def one(rep, rule, e, name, v, want, p, msg):
    v = bare(v)
    if v is None:
        rep.unk(rule, e.loc, msg)
        return
    rep.check(True if v == want else plainly(v, want, p), rule, e.loc, '%s becomes %s' % (msg, show(v)[:60]))


def plainly(v, want, p):
    """False when v is something else than the wanted symbol; None when it may be the same"""
    if v[0] in ('fn', 'call', 'comp', 'out', 'head', 'list', 'dict', 'slice', 'obj') or contains(v, want):
        return None
    return False if is_known(v) else None


def options(prog, rep, e, args, p, mode, what):
    for o in OPTS:
        v = bare(args.get(o))
        s = ('sym', '$' + o)
        if v is None:
            rep.unk('option', e.loc, o)
            continue
        if mode == 'none':
            rep.check(True if v == NONE or v == default_of(prog, o) else None if v[0] not in ('c', 'sym') else False, 'option', e.loc,
                      'without an option %s, the paragraph gets %s in %s' % (o, show(v)[:40], what))
            continue
        if v == s:
            rep.ok('option', e.loc)
            continue
        truth, none = p.facts.get(('truthy', s)), p.facts.get(('isnone', s))
        if v == NONE or v == default_of(prog, o):
            if none is True or truth is False and (o not in NUMERIC or o in SAME and v == C(SAME[o])):
                continue
            rep.bad('option', e.loc, 'the option %s %s does not reach the paragraph in %s%s' % (
                o, 'of the element' if mode == 'own' else 'of the container', what, ' when it is zero' if truth is False else ''))
        else:
            rep.check(plainly(v, s, p), 'option', e.loc, 'the option %s of a paragraph in %s is %s' % (o, what, show(v)[:60]))


def default_of(prog, o):
    for c in ('PDFText', 'PDFTextBase'):
        m = prog.find_method(prog.cls(c), '__init__')
        a = m.node.args
        names = [x.arg for x in a.args]
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if nm == o and isinstance(d, ast.Constant):
                return C(d.value)
    return NONE


def content_of(rep, e, c, kind, st, p, el, what):
    """what text the paragraph shows"""
    if c is None:
        return
    want = {'number': C('7'), 'zero': C('0'), 'string': C('$text'), 'none': C('')}.get(kind, V if kind in ('text', 'dot') else None)
    if want is None:
        return
    got = bare(text_of(st, c))
    if got is None:
        rep.unk('number', e.loc, 'text of a paragraph')
        return
    if got[0] == 'list' or got[0] == 'tuple':
        items = st.heap.get(('L', got[1])) if got[0] == 'list' else got[1]
        if items and len(items) == 1:
            got = bare(items[0])
    if kind in ('number', 'zero') and got == C(7 if kind == 'number' else 0):
        rep.ok('number', e.loc)         # made text of by the paragraph: numbers()
        return
    rep.check(True if got == want else False if is_c(got) or got == ('sym', '$value') else None, 'number', e.loc,
              '%s in %s is shown as %s' % (WORD[kind], what, show(got)[:40]))


def text_of(st, c):
    if c[0] in ('c',):
        return c
    if c[0] == 'dict':
        return _dot(st, c[1])
    if c[0] == 'fn' and c[1] in ('copy', 'dict', 'scopy') and c[2]:
        return text_of(st, c[2][0])
    return None


def _dot(st, d):
    out = None
    for l in st.heap.get(('D', d)) or ():
        if l[0] == 'kv' and is_c(l[1]) and isinstance(l[1][2], str) and l[1][2].startswith('.'):
            out = l[2]
        elif l[0] == 'upd' and l[1][0] == 'dict':
            r = _dot(st, l[1][1])
            out = r if r is not None else out
        elif l[0] == 'upd' and l[1][0] == 'fn' and l[1][1] in ('copy', 'scopy') and l[1][2][0][0] == 'dict':
            r = _dot(st, l[1][2][0][1])
            out = r if r is not None else out
    return out


# ------------------------------------------------------------------ numbers in text
def numbers(prog, rep):
    fi = prog.func('PDFText._recursive_content_parse')
    keep = {fi.qual}
    for m in fi.cls.methods.values():
        if m.name.startswith('_') and m.name != '__init__' and m is not fi:
            keep.add(m.qual)
    for what, make, want in (
            ('a number as the text', lambda mk: C(5), '5'),
            ('zero as the text', lambda mk: C(0), '0'),
            ('a decimal number as the text', lambda mk: C(2.5), '2.5'),
            ('a number in a list', lambda mk: mk.l([C(5)]), '5'),
            ('zero in a list', lambda mk: mk.l([C(0)]), '0'),
            ('a decimal number in a list', lambda mk: mk.l([C(2.5)]), '2.5'),
            ('a number after text', lambda mk: mk.l([C('ab'), C(5)]), 'ab5'),
            ('a number before text', lambda mk: mk.l([C(5), C('ab')]), '5ab'),
            ('a text', lambda mk: C('ab'), 'ab')):
        st = State()
        mk = Maker(st)
        st.heap[('a', SELF, 'content')] = mk.l([])
        el = mk.d([('.', make(mk))])
        eng = Engine(prog, opaque=opaque_set(prog, keep))
        parts = eng.analyse(fi, args={fi.args[1]: el, fi.args[3]: mk.l([])} if len(fi.args) > 3 else {fi.args[1]: el}, state=st)
        rep.functions |= eng.analysed
        done = [p for p in parts if not p.raised]
        rep.count('text shapes', 1)
        if not done:
            rep.check(False if parts else None, 'number', fi.loc(), '%s is refused' % what)
            continue
        for p in done:
            alive = []
            for e, ctx in all_events(p.trace):
                if ctx:
                    alive = None
                    break
                if e.kind == 'append' and e.a[1][0] == 'dict' and is_content(e.a[0], mk):
                    alive.append(e.a[1])
                elif e.kind == 'mut' and is_content(e.a[0], mk) and e.a[1] == 'remove' and e.a[2][0] in alive:
                    alive.remove(e.a[2][0])
            if alive is None:
                rep.unk('number', fi.loc(), what)
                continue
            texts = [eng.dict_get(d, C('text'), C(''), p.state) for d in alive]
            if not all(is_c(t) for t in texts):
                rep.unk('number', fi.loc(), what)
                continue
            got = ''.join(str(t[2]) for t in texts)
            rep.check(got == want, 'number', fi.loc(), '%s (%s) is shown as "%s"' % (what, want, got))


def is_content(t, mk):
    return t[0] == 'attr' and t[1] == SELF and t[2] == 'content' or t[0] == 'list'


# ------------------------------------------------------------------ by call
def passed(prog, rep):
    # calls on the document
    from .c20 import closure
    for q, cls, names in (('PDF.text', 'PDFText', OPTS), ('PDF.table', 'PDFTable', TOPTS)):
        fi = prog.func(q)
        keep = closure(prog, fi, cls)
        eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep})
        n = 0
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            for e, ctx in all_events(p.trace):
                if e.kind != 'new' or e.a[1] != cls:
                    continue
                args = dict(e.a[2])
                for o in names:
                    if o not in fi.args + fi.kwonly:
                        rep.unk('passed', fi.loc(), o)
                        continue
                    v, s = args.get(o), ('sym', o)
                    if v is None:
                        rep.unk('passed', e.loc, o)
                    elif v == s or p.facts.get(('isnone', s)) is True:
                        n += 1
                        rep.ok('passed', e.loc)
                    elif v[0] == 'attr' and v[1] == SELF and v[2] == o:
                        continue                    # the setting of the document: C20
                    else:
                        rep.check(plainly(v, s, p), 'passed', e.loc, '%s: the %s given becomes %s' % (q, o, show(v)[:60]))
        if not n:
            rep.unk('passed', fi.loc(), q)
    # what a paragraph or table was given is what it keeps
    fi = prog.find_method(prog.cls('PDFText'), '__init__')
    keep = {m.qual for c in prog.mro(prog.cls('PDFText')) for m in [c.methods.get('__init__')] if m}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep})
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        for o in OPTS:
            v = None
            for e, _ in all_events(p.trace):
                if e.kind == 'write' and e.a[0] == SELF and e.a[1] == o:
                    v = e.a[2]
            s = ('sym', o)
            if v is None:
                rep.unk('passed', fi.loc(), o)
            elif v == s or p.facts.get(('isnone', s)) is True:
                rep.ok('passed', fi.loc())
            else:
                rep.check(plainly(v, s, p) if p.facts.get(('truthy', s)) is not False else None, 'passed', fi.loc(), 'a paragraph given a %s keeps %s' % (o, show(v)[:60]))
    fi = prog.func('PDFTable.__init__')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual})
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        for o, q in (('borders', 'PDFTable.setup_borders'), ('fills', 'PDFTable.setup_fills')):
            calls = [e for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0] == q]
            for e in calls:
                v = e.a[2][0][1]
                s = ('sym', o)
                rep.check(True if v == s or p.facts.get(('isnone', s)) is True or p.facts.get(('truthy', s)) is False else plainly(v, s, p),
                          'passed', e.loc, 'the %s of a table become %s' % (o, show(v)[:60]))
