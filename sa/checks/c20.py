"""C20: document-wide settings apply wherever the caller gives none, and explicit values win."""
import ast
from .common import *
from .c19 import Kinds, flat, strip, helpers, fns
from ..access import private_closure

TECHNIQUE = ('symbolic evaluation of every path from the calls that create paragraphs, tables and content boxes to the object created: '
             'each setting of the new object is the argument where it was given and the attribute of the document where it was None, and the '
             'lowest layer of its style holds the font settings; the description\'s style table is evaluated entry by entry')

SELF = ('sym', 'self')
FONT = {'f': 'font_family', 's': 'font_size', 'c': 'font_color'}
PAR = ('text_align', 'line_height', 'indent')
NUMERIC = {'line_height', 'indent', 'font_size', 'font_color', 's', 'c'}
SETTINGS = tuple(FONT.values()) + PAR
LAYOUT = ('PDFText', 'PDFTable', 'PDFContent')
DOCUMENTED = dict({v: k for k, v in FONT.items()}, **{k: k for k in PAR + (
    'page_size', 'rotate_page', 'margin', 'page_numbering_offset', 'page_numbering_style', 'outlines_level')})


def run(prog, rep):
    rep.rule('kept', 'the document keeps each setting it was created with')
    rep.rule('default', 'what was not given is taken from the setting of the document')
    rep.rule('explicit', 'what was given is used, also when it is zero')
    rep.rule('layers', 'font settings, and paragraph settings of tables and boxes, are the lowest layer of their style')
    rep.rule('description', 'the style entries of a document description are the settings of the same name')
    rep.section('kept', kept, prog, rep)
    rep.section('default', objects, prog, rep)
    rep.section('explicit', taken, prog, rep)
    rep.section('description', description, prog, rep)


def kept(prog, rep):
    fi = prog.func('PDF.__init__')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual and not writer(g, fi.cls, SETTINGS)})
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        for k in SETTINGS:
            if k not in fi.args + fi.kwonly:
                rep.unk('kept', fi.loc(), 'no parameter ' + k)
                continue
            v = last(p, k)
            if v is None:
                rep.unk('kept', fi.loc(), k)
                continue
            rep.check(given(v, ('sym', k), p.facts, k in NUMERIC), 'kept', fi.loc(), 'the setting %s becomes %s' % (k, show(v)[:60]))


def writer(g, cls, names):
    return g.cls is cls and g.kind not in ('getter', 'setter') and g.args and any(
        isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in names and isinstance(n.value, ast.Name) and n.value.id == g.args[0]
        for n in ast.walk(g.node))


def last(p, name):
    """the value an attribute of the object was given last"""
    out = None
    for e, _ in all_events(p.trace):
        if e.kind == 'write' and e.a[0] == SELF and e.a[1] == name:
            out = e.a[2]
    return out


def given(v, s, facts, numeric):
    """True: v is the parameter s, or s was not given on this path"""
    none = facts.get(('isnone', s))
    truth = facts.get(('truthy', s))
    if v == s:
        return True
    if none is True:
        return True
    if not is_known(v):
        return None
    if none is None and truth is False:
        return False if numeric else True
    if v[0] in ('fn', 'call', 'obj', 'out', 'head', 'poly') and contains(v, s):
        return None
    return False


# ------------------------------------------------------------------ what is created
def closure(prog, root, cls):
    """methods of the class and helpers that lie between a public call and the creation of the object"""
    want = {prog.find_method(prog.cls(c), '__init__').qual for c in (cls,) if prog.find_method(prog.cls(c), '__init__')}
    keep = set(helpers(prog, root.cls))
    reads = set()
    for g in prog.all_functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr in SETTINGS and isinstance(n.ctx, ast.Load) and g.cls is root.cls and g.args and \
                    isinstance(n.value, ast.Name) and n.value.id == g.args[0] and g.kind != 'getter':
                reads.add(g.qual)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = prog.resolve_name(g.module, n.func.id)
                if r and r[0] == 'class' and r[1].name == cls and g.cls is root.cls:
                    reads.add(g.qual)
    # upwards to the root, within the class
    grown = True
    inner = set(reads)
    while grown:
        grown = False
        for g in root.cls.methods.values():
            if g.qual in inner or g.name.startswith(('__', 'add_page')):
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and g.args and \
                        n.func.value.id == g.args[0]:
                    m = prog.find_method(root.cls, n.func.attr)
                    if m is not None and m.qual in inner:
                        inner.add(g.qual)
                        grown = True
    inner = {q for q in inner if not q.endswith('.__init__')}
    # methods that sit on a cycle through the adding of pages stay closed
    closed = {m.qual for m in root.cls.methods.values() if m.name in ('add_page', 'output', 'text', 'table', 'content') and m is not root}
    # different kinds of objects do not meet
    other = set()
    for c in LAYOUT:
        if c == cls:
            continue
        for g in root.cls.methods.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    r = prog.resolve_name(g.module, n.func.id)
                    if r and r[0] == 'class' and r[1].name == c:
                        other.add(g.qual)
    return ((inner - closed) | keep | {root.qual}) - other


def objects(prog, rep):
    seen_new = set()
    k = Kinds(prog)
    for root, cls in (('PDF.text', 'PDFText'), ('PDF.table', 'PDFTable'), ('PDF.content', 'PDFContent')):
        fi = prog.func(root)
        found = inspect(prog, rep, fi, cls, k, seen_new)
        if not found:
            rep.unk('default', fi.loc(), 'no %s is created' % cls)
    # whatever else creates layout objects next to them
    for fi in prog.all_functions():
        if fi.module.name.split('.')[-1] not in ('pdf', 'document'):
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = prog.resolve_name(fi.module, n.func.id)
                if r and r[0] == 'class' and r[1].name in LAYOUT and id(n) not in seen_new:
                    inspect(prog, rep, fi, r[1].name, k, seen_new)
    rep.count('places creating paragraphs, tables and boxes', len(seen_new))


def inspect(prog, rep, fi, cls, k, seen_new):
    keep = closure(prog, fi, cls) if fi.cls is not None else {fi.qual}
    own, dot = fns(prog)
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep} | {own.qual, dot.qual})
    eng.nomerge = True
    found = 0
    params = set(fi.args + fi.kwonly)
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        for e, ctx in all_events(p.trace):
            if e.kind != 'new' or e.a[1] != cls:
                continue
            st = ctx[-1][1] if ctx else p.state
            facts = dict(p.facts)
            facts.update(st.facts)
            seen_new.add(id(e.node))
            found += 1
            args = dict(e.a[2])
            if cls == 'PDFText':
                for n in PAR:
                    setting(rep, e, n, args.get(n), facts, params)
                style_of_text(prog, rep, e, args.get('content'), st, facts, k, fi)
            elif cls == 'PDFTable':
                low(rep, e, args.get('style'), st, facts, k, prog, table=True)
            else:
                c = args.get('content')
                s = entry(st, c, 'style')
                if c is not None and (c[0] == 'sym' or s is None and untouched(st, c)):
                    rep.bad('layers', e.loc, 'a box is created from its description without the settings of the document')
                else:
                    low(rep, e, s, st, facts, k, prog)
    return found


def pdf_attr(v, name):
    return v is not None and v[0] == 'attr' and v[2] == name and (v[1] == SELF or v[1][0] == 'attr' and v[1][2] == 'pdf' or v[1] == ('sym', 'pdf'))


def setting(rep, e, n, v, facts, params):
    if v is None:
        rep.unk('default', e.loc, n)
        return
    s = ('sym', n)
    none = facts.get(('isnone', s))
    truth = facts.get(('truthy', s))
    if pdf_attr(v, n):
        if n not in params:
            rep.ok('default', e.loc)
        elif none is True:
            rep.ok('default', e.loc)
        elif none is False or truth is True:
            rep.bad('explicit', e.loc, 'the %s given is replaced by the setting of the document' % n)
        elif truth is False:
            rep.check(False if n in NUMERIC else True, 'explicit', e.loc, 'a %s of zero is replaced by the setting of the document' % n)
        else:
            rep.bad('explicit', e.loc, 'the %s given is never used' % n)
    elif v == s:
        if none is False or truth is True:
            rep.ok('explicit', e.loc)
        elif none is True or none is None and truth is None:
            rep.bad('default', e.loc, 'without a %s, the setting of the document is not used' % n)
        else:
            rep.ok('explicit', e.loc)
    elif v == NONE or is_c(v) or pdf_other(v):
        # the setting neither of the call nor of the document
        rep.bad('default', e.loc, 'the %s of the paragraph is %s' % (n, show(v)[:60]))
    else:
        rep.unk('default', e.loc, 'the %s of the paragraph is %s' % (n, show(v)[:60]))


def pdf_other(v):
    return v[0] == 'attr' and v[1] == SELF and v[2] in SETTINGS or v[0] == 'sym' and v[1] in SETTINGS


def entry(st, d, key):
    if d is None or d[0] != 'dict':
        return None
    out = None
    for l in st.heap.get(('D', d[1])) or ():
        if l[0] == 'kv' and l[1] == C(key):
            out = l[2]
        elif l[0] in ('star', 'upd') and out is not None:
            return None
    return out


def style_of_text(prog, rep, e, c, st, facts, k, fi):
    if c is None:
        return
    if c[0] == 'dict':
        s = entry(st, c, 'style')
        if s is None:
            rep.check(False if plain(st, c) else None, 'layers', e.loc, 'a paragraph is created without the font settings of the document')
            return
        low(rep, e, s, st, facts, k, prog, par=False)
        return
    kinds = [facts.get(('inst', c, t)) for t in ('str', 'list', 'tuple', 'dict')]
    if c[0] == 'sym' and all(x is False for x in (kinds[0], kinds[3])):
        return                                  # refused later
    if c[0] == 'sym' and (True in kinds or kinds == [None] * 4):
        rep.bad('layers', e.loc, 'a paragraph is created from its content without the font settings of the document where %s'
                % ', '.join(show(a)[:40] for a, b in facts.items() if b and a[0] == 'inst'))
        return
    rep.unk('layers', e.loc, 'content of a paragraph')


def untouched(st, c):
    """a copy of a description whose style was not replaced"""
    if c[0] == 'fn' and c[1] in ('copy', 'deepcopy', 'dict'):
        return True
    ls = st.heap.get(('D', c[1])) if c[0] == 'dict' else None
    return bool(ls) and all(l[0] == 'kv' and is_c(l[1]) and l[1] != C('style') or l[0] == 'upd' and l[1][0] == 'sym' for l in ls)


def plain(st, d):
    ls = st.heap.get(('D', d[1]))
    return ls is not None and all(l[0] == 'kv' for l in ls)


def layers_of(st, d, seen=()):
    out = []
    for l in st.heap.get(('D', d)) or ():
        if l[0] == 'upd' and l[1][0] == 'dict' and l[1][1] not in seen:
            out += layers_of(st, l[1][1], seen + (d,))
        elif l[0] == 'upd' and l[1][0] == 'snap' and isinstance(l[1][1], tuple):
            out += [x for x in l[1][1] if isinstance(x, tuple)]
        else:
            out.append(l)
    return out


def low(rep, e, s, st, facts, k, prog, par=True, table=False):
    """font (and paragraph) settings lie below what the element says"""
    what = 'table' if table else 'box' if par else 'paragraph'
    if s is None:
        rep.unk('layers', e.loc, 'style')
        return
    if s[0] == 'call' and s[1] == fns(prog)[0].qual or s[0] == 'sym' or s[0] in ('get', 'idx'):
        rep.bad('layers', e.loc, 'the style of a %s is %s alone' % (what, show(s)[:60]))
        return
    if s[0] != 'dict':
        rep.unk('layers', e.loc, 'style of a %s' % what)
        return
    ls = layers_of(st, s[1])
    names = dict(FONT)
    if par:
        names.update({n: n for n in PAR})
    seen_upd = False
    got = {}
    over = set()
    for l in ls:
        if l[0] == 'kv' and is_c(l[1]) and l[1][2] in names:
            key = l[1][2]
            if key in got and not seen_upd:
                pass
            absent = any(f[0] == 'in' and f[1] == C(key) and v is False for f, v in facts.items())
            if seen_upd and not absent and not (l[2][0] in ('setdef', 'get')):
                over.add(key)
            got[key] = l[2]
        elif l[0] == 'upd':
            seen_upd = True
        elif l[0] == 'star':
            rep.unk('layers', e.loc, 'layers of the style of a %s' % what)
            return
    for key, name in names.items():
        if key in over:
            rep.bad('layers', e.loc, 'the %s of the document goes over the style of the %s' % (name, what))
            continue
        v = got.get(key)
        if v is None:
            has = any(f[0] == 'in' and f[1] == C(key) and b is True for f, b in facts.items())
            rep.check(True if has else False if all(l[0] in ('kv', 'upd') and known_layer(l, k) for l in ls) else None, 'layers', e.loc,
                      'the style of a %s does not start from the %s of the document' % (what, name))
            continue
        if v[0] in ('setdef', 'get'):
            v = v[3]
        rep.check(True if pdf_attr(v, name) else False if is_known(v) else None, 'layers', e.loc,
                  'the %s of a %s starts from %s' % (key, what, show(v)[:60]))


def known_layer(l, k):
    return l[0] == 'kv' or l[0] == 'upd' and k.of(l[1]) in 'OD'


# ------------------------------------------------------------------ how they are taken
def taken(prog, rep):
    fi = prog.find_method(prog.cls('PDFTextBase') if has_class(prog, 'PDFTextBase') else prog.cls('PDFText'), '__init__')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual})
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        for n in PAR:
            if n not in fi.args + fi.kwonly:
                rep.unk('explicit', fi.loc(), n)
                continue
            v = last(p, n)
            if v is None or v == NONE or v[0] == 'attr':
                continue
            rep.check(given(v, ('sym', n), p.facts, n in NUMERIC), 'explicit', fi.loc(), 'the %s given to a paragraph becomes %s' % (n, show(v)[:60]))
    if not has_class(prog, 'PDFState'):
        rep.unk('explicit', 'text', 'PDFState')
        return
    fi = prog.func('PDFState.__init__')
    st = ('sym', fi.args[1])
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual})
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        v = last(p, 'size')
        rep.check(entry_used(v, st, 's', p.facts), 'explicit', fi.loc(), 'the size of a text is %s' % show(v or NONE)[:60])
        for e, ctx in all_events(p.trace):
            if e.kind == 'new' and e.a[1] == 'PDFColor' and e.a[2]:
                a = e.a[2][0][1]
                if last(p, 'color') == e.a[0]:
                    rep.check(entry_used(a, st, 'c', p.facts), 'explicit', e.loc, 'the colour of a text is %s' % show(a)[:60])
        v = last(p, 'font_family')
        rep.check(entry_used(v, st, 'f', p.facts), 'explicit', fi.loc(), 'the font of a text is %s' % show(v or NONE)[:60])


def has_class(prog, name):
    return any(c.name == name for c in (prog.classes.values() if isinstance(prog.classes, dict) else prog.classes))


def entry_used(v, st, key, facts):
    if v is None:
        return None
    if v[0] in ('idx', 'get') and v[1] == st:
        return v[2] == C(key)
    if any(f[0] == 'truthy' and f[1][0] in ('idx', 'get') and f[1][1] == st and f[1][2] == C(key) and b is False for f, b in facts.items()) and key != 'f':
        return False if is_known(v) and v[0] in ('c', 'glob', 'idx', 'get') else None
    return None


# ------------------------------------------------------------------ descriptions
def description(prog, rep):
    fi = prog.func('PDFDocument.__init__')
    pdf = prog.func('PDF.__init__')
    defaults = eng_defaults(prog, pdf)
    keep = {fi.qual}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == fi.args[0]:
            m = prog.find_method(fi.cls, n.func.attr)
            if m is not None and any(isinstance(x, ast.Return) and x.value is not None or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'PDF'
                                     for x in ast.walk(m.node)):
                keep.add(m.qual)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            r = prog.resolve_name(fi.module, n.func.id)
            if r and r[0] == 'func' and r[1].module is fi.module:
                keep.add(r[1].qual)
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep})
    doc = ('sym', fi.args[1])
    n = 0
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        for e, ctx in all_events(p.trace):
            if e.kind == 'new' and e.a[1] == 'PDF':
                args = dict(e.a[2])
                facts = p.facts
                for param, key in DOCUMENTED.items():
                    n += 1
                    one(prog, rep, e, eng, p, param, key, args.get(param), facts, doc, defaults.get(param))
    rep.count('settings of descriptions followed to the document', n)
    if not n:
        rep.unk('description', fi.loc(), 'the document')


def eng_defaults(prog, fi):
    a = fi.node.args
    out = {}
    names = [x.arg for x in a.posonlyargs + a.args]
    for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            out[nm] = C(d.value)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant):
            out[x.arg] = C(d.value)
    return out


def is_style(eng, p, t, doc):
    t = strip(eng, p.state, t)
    if t[0] in ('get', 'idx') and t[1] == doc:
        return t[2] == C('style')
    if t[0] == 'call':
        return any(is_style(eng, p, a, doc) for a in list(t[2]) + [v for _, v in t[3]])
    return None


def one(prog, rep, e, eng, p, param, key, v, facts, doc, default):
    msg = 'the style entry %s of a description' % key
    present = None
    for f, b in facts.items():
        if f[0] == 'in' and f[1] == C(key) and is_style(eng, p, f[2], doc):
            present = b
        if f[0] == 'in' and f[1] == C('style') and f[2] == doc and b is False or \
                f[0] in ('eq', 'isnone', 'truthy') and f == ('isnone', ('idx', doc, C('style'))) and b is True:
            present = False
    if v is None:
        rep.unk('description', e.loc, msg)
    elif v[0] == 'idx' and is_c(v[2]) and is_style(eng, p, v[1], doc):
        rep.check(v[2] == C(key), 'description', e.loc, '%s: %s becomes the %s' % (msg, show(v[2]), param))
    elif v[0] == 'get' and is_c(v[2]) and is_style(eng, p, v[1], doc):
        rep.check(v[2] == C(key) and (default is None or v[3] == default or present is True), 'description', e.loc,
                  '%s becomes the %s as %s' % (msg, param, show(v)[:60]))
    elif v[0] == 'get' and v[1][0] == 'comp' and is_c(v[2]):
        got = table(prog, eng, p, v[1], doc)
        if got is None:
            rep.unk('description', e.loc, msg)
        elif v[2][2] in got:
            k2 = got[v[2][2]]
            rep.check(k2 == key, 'description', e.loc, '%s does not reach the %s, the entry %s does' % (msg, param, k2))
        else:
            rep.check(present is False, 'description', e.loc, '%s is never passed on' % msg)
    elif default is not None and v == default:
        rep.check(True if present is False else False if present is True or not mentions_key(p, key) else None, 'description', e.loc, '%s is not used' % msg)
    elif is_c(v):
        rep.check(None if present is False else False, 'description', e.loc, '%s is replaced by %s' % (msg, show(v)))
    elif v[0] in ('get', 'idx') and is_c(v[2]) and not is_style(eng, p, v[1], doc) and is_style(eng, p, v[1], doc) is not None:
        rep.bad('description', e.loc, '%s is read from %s' % (msg, show(v)[:60]))
    else:
        rep.unk('description', e.loc, msg)


def mentions_key(p, key):
    return any(f[0] in ('in', 'isnone', 'truthy') and any(x == C(key) for x in subterms(f)) for f in p.facts)


def table(prog, eng, p, comp, doc):
    """{parameter: style key} of {v: style[k] for k, v in TABLE.items() if k in style}"""
    it = comp[2]
    const = mapping(prog, it[1]) if it[0] == 'items' else None
    if const is None:
        return None
    out = {}
    for a, b in const.items():
        def f(t):
            if t[0] == 'dkey':
                return C(a)
            if t[0] == 'idx' and t[1] == it[1]:
                return C(b)
            return None
        hits = 0
        for case in comp[4]:
            ok, val = case[0], case[1]
            conds = case[2] if len(case) > 2 else ()
            if not ok or val is None or val[0] != 'tuple':
                continue
            hits += 1
            kt, vt = [replace(x, f) for x in val[1]]
            if not is_c(kt):
                return None
            if vt[0] in ('idx', 'get') and is_c(vt[2]) and is_style(eng, p, vt[1], doc):
                for c, b2 in conds:
                    c = replace(c, f)
                    if c[0] == 'in' and is_c(c[1]) and is_style(eng, p, c[2], doc):
                        if not b2 or c[1] != vt[2]:
                            return None
                    else:
                        return None
                out[kt[2]] = vt[2][2]
            else:
                return None
        if hits != 1:
            return None
    return out


def replace(t, f):
    r = f(t)
    if r is not None:
        return r
    return tuple(replace(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(replace(y, f) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in t)


def mapping(prog, t):
    if t[0] != 'glob':
        return None
    for m in (prog.modules.values() if isinstance(prog.modules, dict) else prog.modules):
        if m.name.split('.')[-1] == t[1] and t[2] in m.globals:
            n = m.globals[t[2]]
            try:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args:
                    return {k.arg: ast.literal_eval(k.value) for k in n.keywords}
                v = ast.literal_eval(n)
                return v if isinstance(v, dict) else None
            except (ValueError, TypeError):
                return None
    return None
