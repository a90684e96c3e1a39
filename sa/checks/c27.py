"""C27: short style strings accept every documented attribute form."""
import itertools
from .common import *
from .c21 import Maker
from .c22 import unv
from .c26 import attr_of, known_color, judge, opaque_but

TECHNIQUE = ('constant propagation through the style parser: every documented attribute with its value forms, white space, separators and errors, alone and '
             'in every pair, is folded through the code to the dictionary it yields or the error it raises; the strings its callers pass are followed to '
             'the key they are cut from')

FONTS = S_FONTS = ('sym', 'fonts')
OK, LIKE, COLOR = 'ok', 'like', 'color'


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('entry', 'an attribute sets its own entry of the style to the value given and no other')
    rep.rule('error', 'an attribute that is not documented, a font that is not known and a value out of form raise an error')
    rep.rule('callers', 'the style string of a dot key is what follows the dot')
    rep.section('entry', strings, prog, rep)
    rep.section('callers', callers_, prog, rep)


ERROR = 'error'
# (text, {entry: (kind, value)} or ERROR)
BOOLS = [(t, {a: v}) for a in 'biu' for t, v in (('%s' % a, True), (' %s ' % a, True), ('%s:1' % a, True), ('%s:0' % a, False), (' %s : 0 ' % a, False), ('%s: 1' % a, True))]
FAMILIES = [('f:' + f, {'f': f}) for f in ('Helvetica', 'Times', 'My Font')] + [(' f : Times ', {'f': 'Times'})]
COLORS = [(w % (a, t), {a: (COLOR, v)}) for a in ('c', 'bg') for t, v in (
    ('red', (1, 0, 0)), ('0.5', (0.5,)), ('0', (0,)), ('0.1 0.2 0.3', (0.1, 0.2, 0.3)), ('0.1,0.2,0.3', (0.1, 0.2, 0.3)), ('#00ff00', (0, 1, 0)), ('#f00', (1, 0, 0)),
    ('', None)) for w in (('%s:%s', ' %s : %s ') if t in ('red', '0.5', '') else ('%s:%s',))]
NUMBERS = [(t, {a: v}) for a, t, v in (('s', 's:10', 10), ('s', 's:10.5', 10.5), ('s', ' s : 8 ', 8), ('s', 's:0.25', 0.25), ('s', 's:12.0', 12), ('s', 's:-5', -5), ('r', 'r:2', 2),
                                       ('r', 'r:-3', -3), ('r', 'r:0.5', 0.5), ('r', ' r : -1.5 ', -1.5), ('r', 'r:0', 0))]
VALID = BOOLS + FAMILIES + COLORS + NUMBERS
EMPTY = [('', {}), (';', {}), (';;', {})]
WRONG = ['c', 'bg', 's', 'f', 'r', 'x', 'bold', 'bi', 'B', 'x:1', 'size:10', 'color:red', 'B:1', 'S:10', 'b:2', 'i:-1', 'u:true', 'b:True', 'b:00', 'f:Unknown', 'f:helvetica',
         'f:Time', 'f:n', 'f:My', 's:x', 's:1 2', 's:10pt', 'r:x', 'r:1,5', 'c:nocolour', 'c:1 0', 'bg:#12', 'bg:nocolour', 'b:1:0', 'c:red:blue', 's:1:2', 'f:Times:b', ':', ':1', 'b i',
         'r:2:', '10', '1:b']


def engine(prog):
    eng = Engine(prog, opaque=opaque_but(prog, closure_of(prog, prog.func('parse_style_str'))), inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = True
    return eng


def closure_of(prog, f):
    """the functions of the same module and the font class the parser uses"""
    import ast
    out, todo = {f.qual}, [f]
    while todo:
        g = todo.pop()
        for n in ast.walk(g.node):
            name = n.func.id if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else n.id if isinstance(n, ast.Name) else None
            if name and prog.has_func(name) and name not in out:
                out.add(name)
                todo.append(prog.func(name))
            if isinstance(n, ast.Attribute):
                for h in prog.cha(n.attr):
                    if h.qual not in out and h.cls is not None and h.cls.name in ('PDFFont', 'PDFFonts'):
                        out.add(h.qual)
                        todo.append(h)
    return out


def strings(prog, rep):
    f = prog.func('parse_style_str')
    cases = [(t, w) for t, w in VALID + EMPTY] + [(t, ERROR) for t in WRONG]
    some = BOOLS[0:4:3] + BOOLS[8:10] + FAMILIES[:1] + FAMILIES[2:3] + [COLORS[0], COLORS[3], COLORS[-2], NUMBERS[0], NUMBERS[2], NUMBERS[6]]
    if rep.tier == 'thorough':
        some = VALID
    for (t, w), (t2, w2) in itertools.permutations(some, 2):
        if not set(w) & set(w2):
            cases.append((t + ';' + t2, {**w, **w2}))
    for t, w in some[::2]:
        cases += [(x % t, w) for x in (';%s', '%s;', ';;%s;;')]
    for (t, w), x in itertools.product(some[::3], WRONG if rep.tier == 'thorough' else WRONG[::2]):
        cases += [(t + ';' + x, ERROR), (x + ';' + t, ERROR)]
    for t, w in cases:
        one(prog, rep, f, t, w)


def one(prog, rep, f, text, want):
    st = State()
    mk = Maker(st)
    st.heap[('a', FONTS, 'fonts')] = mk.d([('Helvetica', S('font 1')), ('Times', S('font 2'))])
    reg = mk.d([])
    st.heap[('D', reg[1])] = (('kv', ('tuple', (C('My Font'), C('n'))), C('path 1')), ('kv', ('tuple', (C('My Font'), C('b'))), C('path 2')))
    st.heap[('a', ('class', 'PDFFont'), 'registered_fonts')] = reg
    st.heap[('a', ('classattr', 'PDFFont', 'registered_fonts'), 'registered_fonts')] = reg
    eng = engine(prog)
    rule = 'error' if want == ERROR else 'entry'
    rep.count('style strings followed')
    for p in eng.analyse(f, args={f.args[0]: C(text), f.args[1]: FONTS}, state=st):
        rep.functions |= eng.analysed
        if p.facts:                     # not folded to a single outcome
            rep.unk(rule, f.loc(), text)
            continue
        if p.raised:
            rep.check(want == ERROR, rule, f.loc(), 'the style %r is refused' % text)
            continue
        if want == ERROR:
            got = entries(p)
            rep.check(False if got is not None else None, rule, f.loc(), 'the style %r is accepted' % text)
            continue
        got = entries(p)
        if got is None:
            rep.unk(rule, f.loc(), text)
            continue
        rep.check(set(got) == set(want), rule, f.loc(), 'the style %r sets %s' % (text, sorted(got)))
        for k, w in want.items():
            if k not in got:
                continue
            v = got[k]
            what = 'the style %r: %r' % (text, k)
            if isinstance(w, tuple) and w and w[0] == COLOR:
                if v[0] == 'obj':
                    v = attr_of(eng, p.state, v, 'color')
                    judge(rep, rule, f.loc(), False, known_color(None, p, v), None if w[1] is None else tuple(C(x) for x in w[1]), what, 0.006)
                elif is_c(v) and isinstance(v[2], str):
                    rep.check(v[2] == text.strip(' ;').split(':')[1].strip() or None, rule, f.loc(), '%s is %s' % (what, show(v)))
                else:
                    rep.unk(rule, f.loc(), what)
            elif is_c(v):
                if isinstance(w, bool):
                    ok = v[2] is w or (v[1] == 'int' and v[2] == int(w))
                elif isinstance(w, str):
                    ok = v[2] == w
                else:
                    ok = is_num_c(v) and v[1] != 'bool' and v[2] == w
                rep.check(ok, rule, f.loc(), '%s is %s' % (what, show(v)))
            else:
                rep.unk(rule, f.loc(), '%s is %s' % (what, show(v)[:60]))


def entries(p):
    d = p.ret
    if d is None or d[0] != 'dict':
        return None
    out = {}
    for l in p.heap.get(('D', d[1]), ()):
        if l[0] == 'kv' and is_c(l[1]):
            out[l[1][2]] = unv(l[2])
        elif l[0] == 'del' and is_c(l[1]):
            out.pop(l[1][2], None)
        else:
            return None
    return out


# ------------------------------------------------------------------ callers
def callers_(prog, rep):
    f = prog.func('parse_style_str')
    import ast
    for fi in prog.all_functions():
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in ast.walk(fi.node)):
            continue
        found = False
        for a in [x for x in fi.args + fi.kwonly if x != 'self']:
            seen = set()
            eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual})
            eng.fold_globals = True

            def record(eng, st, recv, argmap, e):
                seen.add((argmap.get(f.args[0]), argmap.get(f.args[1])))
                return [(st, Maker(st).d([]))]
            eng.stubs[f.qual] = record
            st = State()
            mk = Maker(st)
            st.heap[('D', 900001)] = ()
            mk.n += 1
            eng.analyse(fi, args={a: mk.d([('first', C('v')), ('.i;u:1', mk.l([C('text')]))])}, state=st)
            rep.functions |= eng.analysed
            for t, fonts in seen:
                if t == C('i;u:1'):
                    found = True
                    rep.ok('callers', fi.loc())
                elif t is not None and is_c(t) and isinstance(t[2], str):
                    rep.check(False if 'u:1' in t[2] else None if t[2] else True, 'callers', fi.loc(), 'the style string of the key ".i;u:1" is %r' % t[2])
        if not found:
            rep.unk('callers', fi.loc(), 'no content of this function could be followed to a style string')
