"""C04: escaping of literal strings.  Terms that reach the parentheses of a literal string are taken apart as
character transducers (composition of per-character substitutions); the transfer function of each one is folded
over the character classes that matter and composed along the flow."""
import ast
import re

from .common import *
from ..engine import State

TECHNIQUE = ('value-flow analysis of everything written between the parentheses of a literal string, with escaping '
             'functions abstracted as per-character transducers folded over character classes')

MUST = {'\\': '\\\\', '(': '\\(', ')': '\\)'}
CR = '\r'
PLAIN = 'anrtb07 %<>[]/\n\t\x00\x80\xe9{}\'"'


class Hom:
    """base term and the per-character map applied to it"""
    def __init__(self, base, f=None, steps=0):
        self.base = base
        self.f = f or (lambda c: c)
        self.steps = steps

    def then(self, g):
        f = self.f
        return Hom(self.base, lambda c: ''.join(g(x) for x in f(c)) if f(c) is not None else None, self.steps + 1)


def single_char_regex(pat):
    try:
        import re._parser as sp
    except ImportError:                                    # older layout
        import sre_parse as sp
    try:
        p = sp.parse(pat)
    except re.error:
        return False
    items = list(p)
    while len(items) == 1 and str(items[0][0]) == 'SUBPATTERN':
        items = list(items[0][1][-1])
    return len(items) == 1 and str(items[0][0]) in ('IN', 'LITERAL', 'NOT_LITERAL', 'BRANCH')


def table_of(t):
    if t[0] == 'trtab':
        return dict(t[1])
    if t[0] == 'snap':
        d = {}
        for l in t[1]:
            if l[0] != 'kv' or not is_c(l[1]) or not is_c(l[2]):
                return None
            d[l[1][2]] = l[2][2]
        return d
    return None


def hom(eng, t):
    if t[0] == 'cat':
        ps = t[2]
        if len(ps) == 1 and ps[0][0] == 'hole' and ps[0][2] in ('', 's'):
            return hom(eng, ps[0][1])
        if len(ps) == 1 and ps[0][0] == 'star' and not (len(ps[0]) > 3 and ps[0][3]):
            return star_hom(eng, ps[0], t)
        return Hom(t)
    if t[0] != 'fn':
        return Hom(t)
    name, args = t[1], t[2]
    if name == 'str' and len(args) == 1:
        return Hom(t)
    if name == 'replace' and len(args) == 3 and is_c(args[1]) and is_c(args[2]) and len(args[1][2]) == 1:
        a, b = args[1][2], args[2][2]
        if isinstance(a, str):
            return hom(eng, args[0]).then(lambda c: c.replace(a, b))
    if name == 'translate' and len(args) == 2:
        tab = table_of(args[1])
        if tab is not None:
            tab = {k if isinstance(k, str) else chr(k): v if isinstance(v, (str, type(None))) else chr(v) for k, v in tab.items()}
            return hom(eng, args[0]).then(lambda c: (tab.get(c, c) or ''))
    if name in ('re.sub', 'sub') and len(args) == 3:
        pat = args[0][1] if args[0][0] == 'regex' else args[0]
        if is_c(pat) and is_c(args[1]) and isinstance(pat[2], str) and single_char_regex(pat[2]):
            return hom(eng, args[2]).then(lambda c: re.sub(pat[2], args[1][2], c))
    return Hom(t)


def star_hom(eng, star, t):
    L = eng.loops.get(star[1])
    if L is None:
        return Hom(t)
    own = [s for i, (s, sig) in enumerate(L.parts) if L.keep is None or L.keep[i]]
    states = own if len(own) == len(star[2]) else None
    if states is None and len(L.back()) == len(star[2]):
        states = L.back()
    sp = L.space
    while sp is not None and sp[0] == 'enumerate':
        sp = sp[1]
    if sp is None or sp[0] in ('range',):
        return Hom(t)
    el = ('idx', sp, ('ind', star[1]))
    if states is None and len(star[2]) != 1:
        return Hom(t)
    alts = list(zip(star[2], [s.facts for s in states] if states else [{}] * len(star[2])))
    for alt, facts in alts:
        for p in alt:
            if p[0] == 'star':
                return Hom(t)
            if p[0] == 'hole' and char_eval(eng, p[1], el, 'x') is None:
                return Hom(t)

    def g(c):
        for alt, facts in alts:
            v = [fact_eval(eng, f, el, c) for f in facts]
            if any(a is not None and a != b for a, b in zip(v, facts.values())):
                continue
            if any(a is None for a, f in zip(v, facts) if contains(f, el)):
                return None
            out = ''
            for p in alt:
                if p[0] == 'lit':
                    out += p[1]
                else:
                    r = char_eval(eng, p[1], el, c)
                    if r is None:
                        return None
                    out += r
            return out
        return None
    inner = hom(eng, sp)
    f = inner.f
    h = Hom(inner.base, None, inner.steps + 1)

    def comp(c):
        mid = f(c)
        if mid is None:
            return None
        out = [g(x) for x in mid]
        return None if any(o is None for o in out) else ''.join(out)
    h.f = comp
    return h


def char_eval(eng, t, el, c):
    """constant folding of a per-character expression"""
    if t == el:
        return c
    if is_c(t):
        return t[2] if isinstance(t[2], str) else None
    if t[0] == 'get' and len(t) > 3:
        tab = table_of(t[1])
        if tab is None or t[2] != el:
            return None
        return tab[c] if c in tab else char_eval(eng, t[3], el, c)
    if t[0] == 'cat':
        out = ''
        for p in t[2]:
            if p[0] == 'lit':
                out += p[1]
            elif p[0] == 'hole' and p[2] in ('', 's'):
                r = char_eval(eng, p[1], el, c)
                if r is None:
                    return None
                out += r
            else:
                return None
        return out
    if t[0] == 'fn':
        h = hom(eng, t)
        if h.base == el:
            return h.f(c)
    return None


def fact_eval(eng, f, el, c):
    if f[0] == 'eq' and el in f[1:]:
        o = f[2] if f[1] == el else f[1]
        return o[2] == c if is_c(o) else None
    if f[0] == 'in' and f[1] == el:
        if is_c(f[2]) and isinstance(f[2][2], str):
            return c in f[2][2]
        if f[2][0] in ('tuple', 'setlit', 'list', 'set') and isinstance(f[2][1], tuple) and all(is_c(x) for x in f[2][1]):
            return c in [x[2] for x in f[2][1]]
        tab = table_of(f[2])
        if tab is not None:
            return c in tab
        return None
    if f[0] == 'truthy' and f[1] == el:
        return True
    return None


def judge(f, need_cr):
    """(verdict, detail) of a per-character map against exactly-once escaping"""
    for c, want in MUST.items():
        r = f(c)
        if r is None:
            return None, 'undetermined for %r' % c
        if r != want:
            if r == c:
                return False, '%r is not escaped' % c
            return False, '%r is written as %r' % (c, r)
    r = f(CR)
    if r is None:
        return None, 'undetermined for CR'
    if r not in ((r'\r',) if need_cr else (r'\r', CR)):
        if r in (r'\015', '\\015'):
            pass
        else:
            return False, 'a carriage return is written as %r' % r
    for c in PLAIN:
        r = f(c)
        if r is None:
            return None, 'undetermined for %r' % c
        if r != c and not (c == '\n' and r in (r'\n', r'\012')):
            return False, '%r is altered to %r' % (c, r)
    return True, ''


def identity(f):
    chars = ''.join(MUST) + CR + PLAIN
    rs = [f(c) for c in chars]
    if any(r is None for r in rs):
        return None
    return ''.join(rs) == chars


def conversion(t):
    """the term converts text to other bytes or characters (glyph codes)"""
    return t[0] == 'fn' and t[1] in ('decode', 'encode', 'chr', 'hex')


def pre_escaped(eng, t, seen=0):
    """a non-identity per-character map is applied somewhere inside t: returns the subterm"""
    for x in subterms(t):
        if x[0] in ('fn', 'cat'):
            if x[0] == 'fn' and x[1] not in ('replace', 'translate', 're.sub', 'sub'):
                continue
            h = hom(eng, x)
            if h.steps and h.base != x and identity(h.f) is False:
                return x
    return None


def run(prog, rep):
    rep.rule('object', 'a string in an object is escaped exactly once, including carriage returns')
    rep.rule('encode', 'encoding text for a font ends with escaping exactly once, after the conversion to glyph codes')
    rep.rule('content', 'text shown in page contents is encoded (and so escaped) exactly once')
    rep.rule('value', 'strings put in objects are not escaped before they are serialised')
    rep.assumptions.append('the character map of escaping functions is decided on the delimiters, CR, LF, NUL and '
                           'representatives of letters, digits and non-ASCII characters; conversions are latin/UTF-16-BE')
    rep.section('object', objects, prog, rep)
    for ci in prog.subclasses(prog.cls("PDFFont")):
        rep.section('encode', encode, prog, rep, ci)
    rep.section('content', content, prog, rep)
    rep.section('value', values, prog, rep)


def objects(prog, rep):
    fi = prog.func('parse_obj')
    eng = Engine(prog, opaque={'parse_obj', 'parse_stream'})
    eng.nomerge = True
    x = ('sym', fi.args[0])
    eng.exact.add(x)
    eng.kinds[x] = 's'
    st = State()
    for t in ('PDFObject', 'PDFRef', 'dict', 'list', 'tuple', 'set', 'bytes', 'bool', 'float', 'int', 'str'):
        st.facts[('inst', x, t)] = t == 'str'
    st.facts[('isnone', x)] = False
    for p in eng.analyse(fi, state=st, types={fi.args[0]: 'str'}):
        if p.raised:
            continue
        ps = cat_parts(p.ret) if p.ret[0] == 'cat' else None
        if ps is None:
            rep.unk('object', fi.loc(), show(p.ret))
            continue
        if ps[0][0] == 'lit' and ps[0][1][:1] == '<':
            rep.unk('object', fi.loc(), 'hexadecimal string')
            continue
        inner = strip_parens(ps)
        if inner is None:
            rep.unk('object', fi.loc(), show(p.ret))
            continue
        inner = mk_cat('s', inner)
        while inner[0] == 'fn' and inner[1] == 'encode':
            inner = inner[2][0]
        h = hom(eng, inner)
        if h.base != x:
            if contains(h.base, x) and h.base[0] == 'fn' and h.base[1] in ('replace', 'strip', 'lower', 'upper', 'lstrip', 'rstrip', 'title'):
                rep.bad('object', fi.loc(), 'a string is changed by %s before it is written' % show(h.base))
            else:
                rep.unk('object', fi.loc(), show(h.base))
            continue
        ok, why = judge(h.f, True)
        rep.check(ok, 'object', fi.loc(), 'in a string of an object ' + why)
    rep.functions |= eng.analysed


def strip_parens(ps):
    ps = list(ps)
    if not ps or ps[0][0] != 'lit' or ps[-1][0] != 'lit' or not ps[0][1].startswith('(') or not ps[-1][1].endswith(')'):
        return None
    if len(ps) == 1:
        return None
    ps[0] = ('lit', ps[0][1][1:])
    ps[-1] = ('lit', ps[-1][1][:-1])
    return [p for p in ps if p != ('lit', '')]


def encode(prog, rep, ci):
    fi = ci.methods.get('encode_text') if ci.name != 'PDFFont' else None
    if fi is None:
        return
    eng = Engine(prog)
    x = ('sym', [a for a in fi.args if a != 'self'][0])
    eng.kinds[x] = 's'
    for p in eng.analyse(fi, types={x[1]: 'str'}):
        if p.raised or p.ret is None:
            continue
        items = [p.ret]
        h = hom(eng, p.ret)
        if h.steps == 0 and h.base[0] == 'cat' and any(q[0] == 'star' for q in h.base[2]) \
                and any(conversion(y) for y in subterms(h.base)):
            items = []
            for q in h.base[2]:
                if q[0] == 'star':
                    for alt in q[2]:
                        items.append(mk_cat('s', alt) if alt else None)
                elif q[0] == 'hole':
                    items.append(q[1])
                else:
                    items.append(None)
        for it in items:
            if it is None or is_c(it):
                rep.unk('encode', fi.loc(), 'constant part')
                continue
            h = hom(eng, it)
            conv = any(conversion(y) for y in subterms(h.base))
            if h.base[0] == 'fn' and not conversion(h.base) and not conv:
                rep.unk('encode', fi.loc(), show(h.base))
                continue
            if not conv and not (h.base == x or h.base == ('idx', x, h.base[-1])):
                rep.unk('encode', fi.loc(), show(h.base))
                continue
            pre = pre_escaped(eng, h.base)
            if pre is not None:
                rep.bad('encode', fi.loc(), 'the text is escaped before it is converted to glyph codes (%s)' % show(pre)[:80])
                continue
            ok, why = judge(h.f, conv)
            rep.check(ok, 'encode', fi.loc(), 'in text encoded for a %s %s' % (ci.name, why))
    rep.functions |= eng.analysed


def shows_text(fi):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
            v = n.value if isinstance(n.value, str) else n.value.decode('latin')
            if re.search(r"\)\s*(Tj|')", v) and not v.strip().startswith('"""'):
                return True
    return False


def paren_holes(t):
    """holes of a template lying between ( and ) of a literal string: (parts between)"""
    out = []
    for x in subterms(t):
        if x[0] != 'cat':
            continue
        ps = x[2]
        i = 0
        while i < len(ps):
            if ps[i][0] == 'lit' and ps[i][1].rstrip(' ').endswith('('):
                j = i + 1
                while j < len(ps) and not (ps[j][0] == 'lit' and ')' in ps[j][1]):
                    j += 1
                if j < len(ps) and j > i + 1:
                    out.append((tuple(ps[i + 1:j]), ps[j][1]))
                    i = j
                    continue
            i += 1
    return out


def content(prog, rep):
    from ..access import callers
    done = set()
    work = [fi for fi in prog.all_functions() if shows_text(fi) and fi.name != 'encode_text']
    seen = set(work)
    while work:
        fi = work.pop()
        if shown_in(prog, rep, fi, done):
            # what is shown is a parameter: decided where the function is called from
            for c in callers(prog).get(fi, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
    rep.count('literal strings in page contents', len(done))
    if not done:
        rep.unk('content', 'package', 'no text-showing template found')


def shown_in(prog, rep, fi, done):
    opaque = {o.qual for o in prog.all_functions() if o.name == 'encode_text' or o.qual == 'PDFState.compare'}
    eng = Engine(prog, opaque=opaque)
    types = {}
    for a in fi.args:
        if a == 'part':
            types[a] = 'PDFTextLinePart'
        if a == 'line':
            types[a] = 'PDFTextLine'
    parts = eng.analyse(fi, types=types)
    rep.functions |= eng.analysed
    up = False
    for p in parts:
        terms = [] if p.ret is None or p.ret == NONE else [p.ret]
        for ev, stk in all_events(p.trace):
            if ev.kind in ('write', 'setitem'):
                terms.append(ev.a[2])
            elif ev.kind in ('append',):
                terms.append(ev.a[1])
            elif ev.kind == 'mut':
                terms.extend(a for a in ev.a[2] if isinstance(a, tuple))
            elif ev.kind == 'call':
                terms.extend(t for _, t in ev.a[2])
        for t in terms:
            for mid, after in paren_holes(t):
                if (mid, fi) not in done:
                    done.add((mid, fi))
                    up |= bool(shown(prog, rep, eng, fi, mid))
    return up


def enc_call(t):
    return t[0] == 'call' and t[1].split('.')[-1] == 'encode_text'


def enc_arg(t):
    kw = dict(t[3])
    if kw:
        return list(kw.values())[0]
    return t[2][-1]


def shown(prog, rep, eng, fi, mid):
    t = mk_cat('s', mid)
    h = hom(eng, t)
    base = h.base
    while base[0] == 'fn' and base[1] == 'str':
        base = base[2][0]
    if base[0] == 'sym' and base[1] in fi.args:
        rep.unk('content', fi.loc(), 'parameter %s is shown' % base[1])
        return True
    if not enc_call(base):
        inner = [y for y in subterms(base) if enc_call(y)]
        if inner:
            rep.unk('content', fi.loc(), show(base))
            return
        if h.steps:
            ok, why = judge(h.f, False)
            if ok is False:
                rep.bad('content', fi.loc(), 'in text shown on a page ' + why)
                return
            rep.unk('content', fi.loc(), 'escaped in place: %s' % show(t))
            return
        rep.check(False if any(y[0] in ('attr', 'sym') for y in subterms(base)) else None, 'content', fi.loc(),
                  'text is shown without being encoded and escaped: %s' % show(base)[:100])
        return
    i = identity(h.f)
    if i is not True:
        rep.check(i, 'content', fi.loc(), 'encoded text is changed again before it is written: %s' % show(t)[:100])
        return
    a = enc_arg(base)
    if any(enc_call(y) for y in subterms(a)):
        rep.bad('content', fi.loc(), 'text is encoded twice: %s' % show(a)[:100])
        return
    pre = pre_escaped(eng, a)
    if pre is not None:
        rep.bad('content', fi.loc(), 'text is escaped before it is encoded: %s' % show(pre)[:100])
        return
    rep.ok('content', fi.loc())


def escapers(prog, rep):
    """functions of one text argument whose result is that text with characters escaped"""
    out = set()
    for fi in prog.all_functions():
        args = [a for a in fi.args if a not in ('self', 'cls')]
        if len(args) != 1 or fi.cls is not None:
            continue
        if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '\\' in n.value for n in ast.walk(fi.node)):
            continue
        eng = Engine(prog)
        x = ('sym', args[0])
        eng.kinds[x] = 's'
        try:
            ps = eng.analyse(fi, types={args[0]: 'str'})
        except (TooComplex, RecursionError):
            continue
        for p in ps:
            if p.ret is None or p.raised:
                continue
            h = hom(eng, p.ret)
            if h.steps and h.f('(') not in ('(', None) and contains(h.base, x):
                out.add(fi)
    return out


def values(prog, rep):
    esc = escapers(prog, rep)
    rep.count('escaping functions', len(esc))
    names = {f.qual for f in esc}
    short = {f.name for f in esc}
    n = 0
    for fi in prog.all_functions():
        if fi in esc or fi.name == 'encode_text' or fi.qual == 'parse_obj' or shows_text(fi):
            continue
        calls = any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in short or
                    isinstance(x.func, ast.Attribute) and x.func.attr in short) for x in ast.walk(fi.node))
        if not calls and not writes_literals(fi):
            continue
        n += 1
        eng = Engine(prog, opaque={f.qual for f in prog.all_functions()} - {'subs', fi.qual})
        parts = eng.analyse(fi)
        heap = {}
        for L in eng.loops.values():
            for s, _ in L.parts:
                heap.update(s.heap)
        for p in parts:
            if p.raised:
                continue
            heap.update(p.heap)
            terms = [(p.ret, 'returned')] if p.ret is not None else []
            for ev, stk in all_events(p.trace):
                if ev.kind == 'call' and ev.a[0] not in names:
                    for _, t in ev.a[2]:
                        terms.append((t, 'passed to %s' % ev.a[0]))
                        terms.extend((x, 'passed to %s' % ev.a[0]) for x in dict_values(heap, t))
                elif ev.kind in ('setitem', 'write'):
                    terms.append((ev.a[2], 'stored'))
                elif ev.kind == 'append':
                    terms.append((ev.a[1], 'stored'))
            for t, how in terms:
                if t is None:
                    continue
                for y in subterms(t):
                    if y[0] == 'cat' and y[1] == 'b':
                        for mid, _ in paren_holes(y):
                            literal_bytes(rep, eng, fi, mid, names)
                if how == 'returned':
                    continue
                if t[0] == 'call' and t[1] in names:
                    rep.bad('value', fi.loc(), 'a string is %s already escaped: %s' % (how, show(t)))
                elif t[0] == 'fn' and how.startswith('passed to PDFBase.add'):
                    h = hom(eng, t)
                    if h.steps and h.f('(') == '\\(' or h.steps and h.f('\\') == '\\\\':
                        rep.bad('value', fi.loc(), 'a string is %s already escaped: %s' % (how, show(t)[:80]))
    rep.count('functions that build objects from strings by hand', n)
    rep.ok('value', 'package')


def dict_values(heap, t, depth=0):
    if t[0] == 'dict' and depth < 3:
        for l in heap.get(('D', t[1]), ()) or ():
            if l[0] == 'kv':
                yield l[2]
                yield from dict_values(heap, l[2], depth + 1)


def literal_bytes(rep, eng, fi, mid, names):
    t = mk_cat('s', mid)
    while t[0] == 'fn' and t[1] in ('encode', 'bytes'):
        t = t[2][0]
    h = hom(eng, t)
    b = h.base
    if b[0] == 'call' and b[1] in names:
        rep.check(identity(h.f), 'value', fi.loc(), 'an escaped string is changed again: %s' % show(t)[:80])
        return
    if h.steps:
        ok, why = judge(h.f, True)
        rep.check(ok, 'value', fi.loc(), 'in a string built by hand ' + why)
        return
    if b[0] in ('attr', 'sym', 'idx', 'get', 'slice', 'dkey'):
        ty = eng.kinds.get(b)
        rep.check(False if ty == 's' or b[0] in ('idx', 'get', 'sym', 'slice', 'dkey') and ty != 'num' else None, 'value', fi.loc(), 'a string is written between parentheses without escaping: %s' % show(b))


def writes_literals(fi):
    """mentions an opening parenthesis directly before a replacement field, outside exception texts"""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
            v = n.value if isinstance(n.value, str) else n.value.decode('latin')
            if re.search(r'\(\{|(^|[ /])\($|\(%[sr]|\\', v):
                return True
    return False
