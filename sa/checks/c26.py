"""C26: colours are parsed to their components and written with the matching operator."""
import itertools
from .common import *
from .c21 import Maker
from .c22 import unv

TECHNIQUE = ('constant propagation through the colour code: every colour form (all names against the CSS table, hexadecimal, strings, lists, symbolic '
             'components) through parse_color and PDFColor, and the streams of short sequences of fills, lines and styled text parts, interpreted to find '
             'which colour each painting operator is drawn in')

SELF = ('sym', 'self')
CSS = '''
aliceblue:f0f8ff antiquewhite:faebd7 aqua:00ffff aquamarine:7fffd4 azure:f0ffff beige:f5f5dc bisque:ffe4c4 black:000000 blanchedalmond:ffebcd
blue:0000ff blueviolet:8a2be2 brown:a52a2a burlywood:deb887 cadetblue:5f9ea0 chartreuse:7fff00 chocolate:d2691e coral:ff7f50 cornflowerblue:6495ed
cornsilk:fff8dc crimson:dc143c cyan:00ffff darkblue:00008b darkcyan:008b8b darkgoldenrod:b8860b darkgray:a9a9a9 darkgreen:006400 darkgrey:a9a9a9
darkkhaki:bdb76b darkmagenta:8b008b darkolivegreen:556b2f darkorange:ff8c00 darkorchid:9932cc darkred:8b0000 darksalmon:e9967a darkseagreen:8fbc8f
darkslateblue:483d8b darkslategray:2f4f4f darkslategrey:2f4f4f darkturquoise:00ced1 darkviolet:9400d3 deeppink:ff1493 deepskyblue:00bfff
dimgray:696969 dimgrey:696969 dodgerblue:1e90ff firebrick:b22222 floralwhite:fffaf0 forestgreen:228b22 fuchsia:ff00ff gainsboro:dcdcdc
ghostwhite:f8f8ff gold:ffd700 goldenrod:daa520 gray:808080 green:008000 greenyellow:adff2f grey:808080 honeydew:f0fff0 hotpink:ff69b4 indianred:cd5c5c
indigo:4b0082 ivory:fffff0 khaki:f0e68c lavender:e6e6fa lavenderblush:fff0f5 lawngreen:7cfc00 lemonchiffon:fffacd lightblue:add8e6 lightcoral:f08080
lightcyan:e0ffff lightgoldenrodyellow:fafad2 lightgray:d3d3d3 lightgreen:90ee90 lightgrey:d3d3d3 lightpink:ffb6c1 lightsalmon:ffa07a
lightseagreen:20b2aa lightskyblue:87cefa lightslategray:778899 lightslategrey:778899 lightsteelblue:b0c4de lightyellow:ffffe0 lime:00ff00
limegreen:32cd32 linen:faf0e6 magenta:ff00ff maroon:800000 mediumaquamarine:66cdaa mediumblue:0000cd mediumorchid:ba55d3 mediumpurple:9370db
mediumseagreen:3cb371 mediumslateblue:7b68ee mediumspringgreen:00fa9a mediumturquoise:48d1cc mediumvioletred:c71585 midnightblue:191970
mintcream:f5fffa mistyrose:ffe4e1 moccasin:ffe4b5 navajowhite:ffdead navy:000080 oldlace:fdf5e6 olive:808000 olivedrab:6b8e23 orange:ffa500
orangered:ff4500 orchid:da70d6 palegoldenrod:eee8aa palegreen:98fb98 paleturquoise:afeeee palevioletred:db7093 papayawhip:ffefd5 peachpuff:ffdab9
peru:cd853f pink:ffc0cb plum:dda0dd powderblue:b0e0e6 purple:800080 rebeccapurple:663399 red:ff0000 rosybrown:bc8f8f royalblue:4169e1
saddlebrown:8b4513 salmon:fa8072 sandybrown:f4a460 seagreen:2e8b57 seashell:fff5ee sienna:a0522d silver:c0c0c0 skyblue:87ceeb slateblue:6a5acd
slategray:708090 slategrey:708090 snow:fffafa springgreen:00ff7f steelblue:4682b4 tan:d2b48c teal:008080 thistle:d8bfd8 tomato:ff6347 turquoise:40e0d0
violet:ee82ee wheat:f5deb3 white:ffffff whitesmoke:f5f5f5 yellow:ffff00 yellowgreen:9acd32
'''
CSS_COLORS = {n: tuple(int(h[i:i + 2], 16) / 255 for i in (0, 2, 4)) for n, h in (x.split(':') for x in CSS.split())}


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('parse', 'a colour specification yields its components; anything else is an error')
    rep.rule('operator', 'one component is written with the grey operator, three with the RGB operator, in the variant asked for')
    rep.rule('role', 'borders and underlines use the stroking variant, text, backgrounds and fills the filling one')
    rep.rule('drawn', 'every line, fill, background and text is painted in its own colour')
    for what, make, want in forms():
        rep.section('parse', parsed, prog, rep, what, make, want)
    rep.section('operator', operators, prog, rep)
    rep.section('role', table_roles, prog, rep)
    rep.section('drawn', graphics, prog, rep)
    rep.section('drawn', paragraphs, prog, rep)
    rep.section('drawn', borders, prog, rep)


# ------------------------------------------------------------------ forms of colours
ERROR = 'error'


def forms():
    a, b, c = S('r'), S('g'), S('b')
    k = lambda *xs: tuple(C(x) for x in xs)
    yield 'None', lambda m: NONE, None
    yield 'the empty string', lambda m: C(''), None
    for v in (0, 1, 0.5, 0.0):
        yield 'the number %s' % v, lambda m, v=v: C(v), k(v)
    for n, h in CSS_COLORS.items():
        yield 'the name ' + n, lambda m, n=n: C(n), k(*h)
    for t, h in (('#fff', (1, 1, 1)), ('#000', (0, 0, 0)), ('#1b9', (17 / 255, 187 / 255, 153 / 255)), ('#1B9', (17 / 255, 187 / 255, 153 / 255)),
                 ('#1b98', (17 / 255, 187 / 255, 153 / 255)), ('#00ff80', (0, 1, 128 / 255)), ('#123456', (18 / 255, 52 / 255, 86 / 255)),
                 ('#AbCdEf', (171 / 255, 205 / 255, 239 / 255)), ('#123456ff', (18 / 255, 52 / 255, 86 / 255))):
        yield 'the string ' + t, lambda m, t=t: C(t), k(*h)
    for t, h in (('0.5', (0.5,)), ('1 0 0.25', (1, 0, 0.25)), ('0,1,0', (0, 1, 0)), ('0, 0.5, 1', (0, 0.5, 1)), (' 0.1  0.2 , 0.3 ', (0.1, 0.2, 0.3))):
        yield 'the string %r' % t, lambda m, t=t: C(t), k(*h)
    for w, wrap in (('list', lambda m, v: m.l(v)), ('tuple', lambda m, v: ('tuple', tuple(v)))):
        yield 'a %s of one component' % w, lambda m, wrap=wrap: wrap(m, [a]), (a,)
        yield 'a %s of three components' % w, lambda m, wrap=wrap: wrap(m, [a, b, c]), (a, b, c)
        yield 'a %s of three numbers' % w, lambda m, wrap=wrap: wrap(m, [C(0.3), C(0), C(1)]), k(0.3, 0, 1)
        yield 'a %s of one number' % w, lambda m, wrap=wrap: wrap(m, [C(0)]), k(0)
        yield 'a %s of number strings' % w, lambda m, wrap=wrap: wrap(m, [C('0.3'), C('0'), C('1')]), k(0.3, 0, 1)
        yield 'a %s of one number string' % w, lambda m, wrap=wrap: wrap(m, [C('0.3')]), k(0.3)
        for n in (0, 2, 5):
            yield 'a %s of %d components' % (w, n), lambda m, wrap=wrap, n=n: wrap(m, [C(0.1)] * n), ERROR
        yield 'a %s of a word' % w, lambda m, wrap=wrap: wrap(m, [C('x')]), ERROR
        yield 'a %s of words' % w, lambda m, wrap=wrap: wrap(m, [C('1'), C('0'), C('x')]), ERROR
    for t in ('nothing', '#12', '#12345', '#ggg', '#12345g', '#123456789', '1 0', '1 2 3 4 5', '0.1 x 0.2', '#', 'RED'):
        yield 'the string %r' % t, lambda m, t=t: C(t), ERROR
    yield 'a dictionary', lambda m: m.d([('color', C(1))]), ERROR


def known_color(st, p, t):
    """the components of a parsed colour: None (no colour), a tuple of terms, or False (not known)"""
    if t is None:
        return False
    if t == NONE:
        return None
    if t[0] == 'tuple':
        return tuple(unv(x) for x in t[1])
    if t[0] == 'list':
        xs = p.heap.get(('L', t[1]))
        if xs is not None and not any(x[0] in ('star', 'unk') for x in xs):
            return tuple(unv(x) for x in xs)
    return False


def component(v, want, slack):
    if v[0] == 'fn' and v[1] == 'float' and len(v[2]) == 1:
        v = v[2][0]
    if is_num_c(v) and is_num_c(want):
        return abs(v[2] - want[2]) <= slack
    if v == want:
        return True
    if is_c(v) and not is_num_c(v):
        return False
    d = poly_const(p_sub(v, want))
    if d is not None:
        return d == 0
    return False if all(x[0] in ('sym', 'c', 'poly') for x in subterms(v)) else None


def numbers(st):
    for x in ('r', 'g', 'b'):
        st.facts[('inst', S(x), 'str')] = False
        st.facts[('inst', S(x), 'float')] = True
        st.facts[('inst', S(x), 'int')] = False
        st.facts[('isnone', S(x))] = False


def colour_engine(prog):
    mods = {prog.cls('PDFColor').module} if hasattr(prog.cls('PDFColor'), 'module') else set()
    keep = {g.qual for g in prog.all_functions() if g.module in mods or (g.cls is None and g.module.name == 'utils' and g.name == 'copy')}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep}, inline_str=True)
    eng.nomerge = True
    eng.exact_try = True
    eng.fold_globals = True
    eng.inline_set = set(getattr(eng, 'inline_set', ())) | {'PDFColor.__str__', 'PDFColor.__eq__'}
    return eng


def parsed(prog, rep, what, make, want):
    """parse_color, and a colour object made from the same specification and written out"""
    f = prog.func('parse_color')
    st = State()
    numbers(st)
    eng = colour_engine(prog)
    slack = 0.006 if what.startswith('the name') else 1e-9
    rep.count('forms of colours followed')
    for p in eng.analyse(f, args={f.args[0]: make(Maker(st))}, state=st):
        rep.functions |= eng.analysed
        judge(rep, 'parse', f.loc(), p.raised, known_color(st, p, p.ret) if not p.raised else False, want, what, slack)


def judge(rep, rule, loc, raised, got, want, what, slack):
    if raised:
        rep.check(want == ERROR, rule, loc, '%s is refused as a colour' % what)
    elif got is False:
        rep.unk(rule, loc, what)
    elif want == ERROR:
        rep.bad(rule, loc, '%s is accepted as a colour' % what)
    elif got is None or want is None:
        rep.check(got == want, rule, loc, '%s %s' % (what, 'is not a colour' if got is None else 'yields a colour'))
    elif len(got) != len(want):
        rep.bad(rule, loc, '%s yields %d components' % (what, len(got)))
    else:
        for i, (v, w) in enumerate(zip(got, want)):
            rep.check(component(v, w, slack), rule, loc, '%s: component %d is %s' % (what, i + 1, show(v)[:60]))


# ------------------------------------------------------------------ colours made step by step
class Chain:
    """abstract objects made by the constructors of the program, one state after the other"""

    def __init__(self, prog, rep, eng):
        self.prog, self.rep, self.eng = prog, rep, eng
        self.st = State()
        self.mk = Maker(self.st)
        self.n = 700000

    def call(self, f, args):
        parts = [p for p in self.eng.analyse(f, args=args, state=self.st) if not p.raised]
        self.rep.functions |= self.eng.analysed
        if len(parts) != 1:
            raise Undecided('%d ways through %s' % (len(parts), f.qual))
        self.st = parts[0].state
        self.mk.st = self.st
        return parts[0].ret

    def new(self, cls, **args):
        self.n += 1
        o = ('obj', cls, self.n)
        f = self.prog.func(cls + '.__init__')
        full = {f.args[0]: o}
        full.update(defaults(f))
        full.update(args)
        self.call(f, full)
        return o

    def color(self, spec, stroke=None):
        f = self.prog.func('PDFColor.__init__')
        a = {f.args[1]: spec}
        if stroke is not None:
            a[f.args[2]] = C(stroke)
        return self.new('PDFColor', **a)

    def attr(self, o, name):
        return unv(attr_of(self.eng, self.st, o, name))


class Undecided(Exception):
    pass


def defaults(f):
    import ast
    out = {}
    for a, node in f.defaults.items():
        if isinstance(node, ast.Constant):
            out[a] = C(node.value)
    return out


def attr_of(eng, st, o, name):
    got = eng.get_attr(st, o, name, None)
    return got[0][1] if len(got) == 1 else ('attr', o, name, 0)


def text_of(t):
    if t is None:
        return None
    if is_c(t) and isinstance(t[2], str):
        return t[2]
    if t[0] == 'cat' and all(x[0] == 'lit' for x in t[2]):
        return ''.join(x[1] for x in t[2])
    return None


SPECS = (('a grey', C(0.25), '0.25', 'g'), ('a color', ('tuple', (C(0.1), C(0.2), C(0.3))), '0.1 0.2 0.3', 'rg'), ('the name red', C('red'), '1.0 0 0', 'rg'),
         ('a long grey', C(0.123456), '0.123', 'g'), ('a long color', ('tuple', (C(0.123456), C(1), C(0))), '0.123 1.0 0.0', 'rg'), ('nothing', NONE, '', ''))


def operators(prog, rep):
    f = prog.func('PDFColor.__str__')
    for what, spec, nums, op in SPECS:
        for stroke in (None, False, True):
            for again in (False, True):
                ch = Chain(prog, rep, colour_engine(prog))
                try:
                    o = ch.color(spec, stroke if not again else not stroke)
                    if again:               # a colour made from a colour takes its components only
                        o = ch.color(o, stroke)
                    got = text_of(ch.call(f, {f.args[0]: o}))
                except Undecided as e:
                    rep.unk('operator', f.loc(), '%s: %s' % (what, e))
                    continue
                name = '%s for %s%s' % (what, 'lines' if stroke else 'fills', ', made from another colour' if again else '')
                if got is None:
                    rep.unk('operator', f.loc(), name)
                    continue
                g = got.split()
                want_op = op.upper() if stroke else op
                ok = (not g and not op) or (g and g[-1] == want_op and numeric_equal(g[:-1], nums.split()))
                rep.check(bool(ok), 'operator', f.loc(), '%s is written as %r' % (name, got))


def numeric_equal(a, b):
    try:
        return len(a) == len(b) and all(abs(float(x) - float(y)) < 6e-4 for x, y in zip(a, b))
    except ValueError:
        return False


# ------------------------------------------------------------------ roles in tables
def is_stroke(ch_or_p, eng, st, o):
    if o is None or o[0] != 'obj' or o[1] != 'PDFColor':
        return None
    v = unv(attr_of(eng, st, o, 'stroke'))
    return bool(v[2]) if is_c(v) else None


def opaque_but(prog, quals):
    keep = set(quals) | {g.qual for g in prog.all_functions() if g.cls is not None and g.cls.name == 'PDFColor'}
    keep |= {g.qual for g in prog.all_functions() if g.cls is None and g.name in ('parse_color', 'copy')}
    return {g.qual for g in prog.all_functions() if g.qual not in keep}


def own_helpers(prog, f):
    """methods of the same class the method uses, transitively"""
    out, todo = {f.qual}, [f]
    while todo:
        g = todo.pop()
        import ast
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and g.cls is not None:
                m = prog.find_method(g.cls, n.func.attr)
                if m is not None and m.qual not in out:
                    out.add(m.qual)
                    todo.append(m)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and prog.has_func(n.func.id):
                m = prog.func(n.func.id)
                if m.qual not in out:
                    out.add(m.qual)
                    todo.append(m)
    return out


def table_roles(prog, rep):
    f = prog.func('PDFTable.set_default_border')
    for spec in (C(0.3), C('red'), None):
        st = State()
        mk = Maker(st)
        st.heap[('a', SELF, 'style')] = mk.d([('border_color', spec)] if spec is not None else [])
        eng = Engine(prog, opaque=opaque_but(prog, own_helpers(prog, f)))
        eng.nomerge = True
        eng.exact_try = eng.fold_globals = True
        for p in eng.analyse(f, state=st):
            rep.functions |= eng.analysed
            if p.raised:
                rep.bad('role', f.loc(), 'the default border fails')
                continue
            d = p.attr(SELF, 'default_border')
            o = eng.dict_get(d, C('color'), NONE, p.state) if d is not None and d[0] == 'dict' else None
            role(rep, f.loc(), eng, p, o, True, 'the default border', {None: (0,), C(0.3): (0.3,), C('red'): (1, 0, 0)}[spec])

    f = prog.func('PDFTable.setup_borders')
    for spec in (C(0.3), C('red'), None):
        for pos in ('h0;0', 'v0;0'):
            ch = Chain(prog, rep, Engine(prog, opaque=opaque_but(prog, own_helpers(prog, f))))
            ch.eng.nomerge = True
            ch.eng.exact_try = ch.eng.fold_globals = True
            try:
                base = ch.color(C(0.7), True)
            except Undecided as e:
                rep.unk('role', f.loc(), str(e))
                continue
            st, mk = ch.st, ch.mk
            st.heap[('a', SELF, 'default_border')] = mk.d([('width', C(0.5)), ('color', base), ('style', C('solid'))])
            st.heap[('a', SELF, 'content')] = mk.l([mk.l([C('x')])])
            st.heap[('a', SELF, 'cols_count')] = C(1)
            b = mk.d([('pos', C(pos))] + ([('color', spec)] if spec is not None else []))
            eng = ch.eng
            eng.stubs['PDFTable.parse_pos_string'] = lambda eng, st, recv, argmap, e: [(st, Maker(st).l([('tuple', (C(0), C(0)))]))]
            for p in eng.analyse(f, args={f.args[1]: mk.l([b])}, state=st):
                rep.functions |= eng.analysed
                if p.raised:
                    rep.bad('role', f.loc(), 'a border fails')
                    continue
                o = None
                for k in ('borders_h', 'borders_v'):
                    d = p.attr(SELF, k)
                    if d is not None and d[0] == 'dict':
                        row = eng.dict_get(d, C(0), NONE, p.state)
                        if row is not None and row[0] == 'dict':
                            cell = eng.dict_get(row, C(0), NONE, p.state)
                            if cell is not None and cell[0] == 'dict':
                                o = eng.dict_get(cell, C('color'), NONE, p.state)
                role(rep, f.loc(), eng, p, o, True, 'a border %s' % ('without a colour' if spec is None else 'with a colour'),
                     {None: (0.7,), C(0.3): (0.3,), C('red'): (1, 0, 0)}[spec])

    f = prog.func('PDFTable._setup_cell_fill')
    for where, spec in itertools.product(('cell', 'table', 'both'), (C(0.3), C('red'), C(0))):
        st = State()
        mk = Maker(st)
        st.heap[('a', SELF, 'fills_mem')] = mk.d([])
        st.heap[('a', SELF, 'current_index')] = C(2)
        st.heap[('a', SELF, 'fills_defs')] = mk.d([(2, mk.d([(1, spec if where == 'table' else C(0.9))]))] if where != 'cell' else [])
        cs = mk.d([('cell_fill', spec)] if where != 'table' else [])
        eng = Engine(prog, opaque=opaque_but(prog, own_helpers(prog, f)))
        eng.nomerge = True
        eng.exact_try = eng.fold_globals = True
        args = dict(zip(f.args[1:], (C(1), cs, C(10), C(0), C(2))))
        for p in eng.analyse(f, args=args, state=st):
            rep.functions |= eng.analysed
            if p.facts:
                rep.unk('role', f.loc(), 'a fill given in the %s depends on %s' % (where, list(p.facts)[:1]))
                continue
            if p.raised:
                rep.bad('role', f.loc(), 'a fill fails')
                continue
            d = p.attr(SELF, 'fills_mem')
            cell = eng.dict_get(d, C(1), NONE, p.state) if d is not None and d[0] == 'dict' else None
            o = eng.dict_get(cell, C('color'), NONE, p.state) if cell is not None and cell[0] == 'dict' else cell
            role(rep, f.loc(), eng, p, o, False, 'a fill given in the %s' % {'both': 'cell and the table'}.get(where, where),
                 {C(0.3): (0.3,), C('red'): (1, 0, 0), C(0): (0,)}[spec])


def role(rep, loc, eng, p, o, stroke, what, want):
    if o == NONE:
        rep.bad('role', loc, '%s has no colour' % what)
        return
    v = is_stroke(None, eng, p.state, o)
    rep.check(v == stroke if v is not None else None, 'role', loc, '%s is written with the %s operator' % (what, 'filling' if stroke else 'stroking'))
    if o is not None and o[0] == 'obj':
        got = known_color(None, p, attr_of(eng, p.state, o, 'color'))
        judge(rep, 'role', loc, False, got, tuple(C(x) for x in want), what, 0.001)


# ------------------------------------------------------------------ what is painted in which colour
def painted(stream):
    """[(operator, colour operator and numbers in effect)] of a stream; None if it cannot be read"""
    fill = line = None
    stack, out, nums = [], [], []
    for tok in stream.replace(')Tj', ') Tj').replace('(', ' (').split():
        try:
            nums.append(float(tok))
            continue
        except ValueError:
            pass
        if tok in ('g', 'rg'):
            fill = (tok, tuple(nums))
        elif tok in ('G', 'RG'):
            line = (tok.lower(), tuple(nums))
        elif tok == 'q':
            stack.append((fill, line))
        elif tok == 'Q':
            if not stack:
                return None
            fill, line = stack.pop()
        elif tok in ('F', 'f', 'Tj'):
            out.append((tok, fill))
        elif tok in ('S', 's'):
            out.append((tok, line))
        elif tok in ('B', 'b'):
            out.append((tok, (fill, line)))
        nums = []
    return out


def matches(got, want):
    """the colour in effect (operator, numbers) is the one wanted (numbers)"""
    return got is not None and got[0] == ('g' if len(want) == 1 else 'rg') and numeric_equal([str(x) for x in got[1]], [str(x) for x in want])


GREY, RED, BLUE, DARK = (0.25,), (1, 0, 0), (0, 0, 1), (0.75,)
PALETTE = (GREY, RED, BLUE, DARK, (1,), (1, 1, 0), (1, 1, 1), (0.25, 0.25, 0.5), (1, 0, 1))


def spec_of(c):
    return C(c[0]) if len(c) == 1 else ('tuple', tuple(C(x) for x in c))


def graphics(prog, rep):
    f = prog.func('create_graphics')
    kinds = [('fill', GREY, 0, 'solid'), ('fill', RED, 0, 'solid'), ('line', GREY, 1, 'solid'), ('line', RED, 1, 'dashed'), ('line', RED, 2, 'dotted')]
    n = 4 if rep.tier == 'thorough' else 3
    keep = opaque_but(prog, own_helpers(prog, f))
    more = [(k, c, 1, 'solid') for k in ('fill', 'line') for c in PALETTE]
    for seq in itertools.chain(itertools.product(more, repeat=2), *(itertools.product(kinds, repeat=k) for k in range(1, n + 1))):
        eng = Engine(prog, opaque=keep, inline_only=None)
        eng.nomerge = True
        eng.exact_try = eng.fold_globals = True
        eng.inline_set = set(getattr(eng, 'inline_set', ())) | {'PDFColor.__str__', 'PDFColor.__eq__'}
        ch = Chain(prog, rep, eng)
        what = ', '.join('%s in %s' % (k, c) for k, c, w, s in seq)
        try:
            ds = []
            for k, c, w, s in seq:
                kv = [('type', C(k)), ('color', ch.color(spec_of(c), k == 'line'))]
                kv += [(x, C(1)) for x in (('x', 'y', 'height') if k == 'fill' else ('x1', 'y1', 'x2', 'y2'))] + [('width', C(w or 5)), ('style', C(s))]
                ds.append(ch.mk.d(kv))
            got = text_of(ch.call(f, {f.args[0]: ch.mk.l(ds)}))
        except Undecided as e:
            rep.unk('drawn', f.loc(), str(e))
            continue
        rep.count('sequences of graphics followed')
        drawn(rep, f.loc(), got, [('F' if k == 'fill' else 'S', c) for k, c, w, s in seq], what)


def drawn(rep, loc, got, want, what):
    if got is None:
        rep.unk('drawn', loc, what)
        return
    ops = painted(got)
    if ops is None:
        rep.bad('drawn', loc, 'unbalanced graphics state (%s)' % what)
        return
    ops = [(o.upper() if o != 'Tj' else o, c) for o, c in ops]
    if [o for o, c in ops] != [o for o, c in want]:
        rep.unk('drawn', loc, '%s: %s' % (what, ops))
        return
    for (o, c), (_, w) in zip(ops, want):
        rep.check(matches(c, w), 'drawn', loc, '%s is painted in %s where %s is asked for (%s)' % (
            {'F': 'a fill', 'S': 'a line', 'Tj': 'text'}[o], c, w, what))


# ------------------------------------------------------------------ paragraphs
def paragraphs(prog, rep):
    g = prog.func('PDFTextBase.output_graphics')
    t = prog.func('PDFTextBase.output_text')
    keep = set(own_helpers(prog, g)) | set(own_helpers(prog, t)) | {'PDFTextLinePart.__init__', 'PDFState.__init__', 'PDFState.compare'}
    keep |= {m.qual for c in ('PDFState',) for m in prog.cls(c).methods.values()}
    opaque = opaque_but(prog, keep)
    colours = [GREY, RED]
    styles = [(c, bg, u) for c in colours for bg in (None, GREY, RED) for u in (False, True)]
    n = 3 if rep.tier == 'thorough' else 2
    more = [(c, bg, True) for c, bg in zip(PALETTE, PALETTE[1:] + PALETTE[:1])]
    start = prog.find_method(prog.cls('PDFTextBase'), 'init')
    seqs = [(x, False) for x in itertools.chain(itertools.product(styles, repeat=n), itertools.product(more, repeat=2))]
    if start is not None:
        keep |= set(own_helpers(prog, start))
        opaque = opaque_but(prog, keep)
        seqs += [((x, x), True) for x in styles]
    for seq, again in seqs:
        eng = Engine(prog, opaque=opaque)
        eng.nomerge = True
        eng.exact_try = eng.fold_globals = True
        eng.inline_set = set(getattr(eng, 'inline_set', ())) | {'PDFColor.__str__', 'PDFColor.__eq__'}
        for q in opaque:
            if q.split('.')[-1] == 'encode_text':
                eng.stubs[q] = lambda eng, st, recv, argmap, e: [(st, C('x'))]
            elif not q.endswith('__init__'):
                eng.stubs[q] = lambda eng, st, recv, argmap, e, q=q: [(st, S('result of ' + q))]
        ch = Chain(prog, rep, eng)
        what = ('in two rectangles, ' if again else '') + '; '.join('text in %s%s%s' % (c, ' on %s' % (b,) if b else '', ', underlined' if u else '') for c, b, u in seq)
        for a in ('last_state', 'last_factor', 'last_fill', 'last_color', 'last_stroke_width'):
            ch.st.heap[('a', SELF, a)] = NONE
        font = S('font')
        fonts = S('fonts')
        gs, ts, want_g, want_t = '', '', [], []
        try:
            for i, (c, b, u) in enumerate(seq):
                kvs = [('f', C('Helvetica')), ('s', C(10)), ('c', spec_of(c) if i % 2 else ch.color(spec_of(c))), ('u', C(u))] + ([('bg', spec_of(b))] if b else [])
                if i and again:
                    drawn(rep, g.loc(), gs, want_g, what)
                    drawn(rep, t.loc(), ts, want_t, what)
                    gs, ts, want_g, want_t = '', '', [], []
                    for a, v in (('width', C(100)), ('indent', C(0)), ('is_first_line', C(False)), ('list_setup_done', C(False))):
                        ch.st.heap[('a', SELF, a)] = v
                    ch.call(start, {start.args[0]: SELF})
                part = part_of(ch, kvs, fonts)
                r = text_of(ch.call(g, dict(zip(g.args, (SELF, part, C(1), C(2), C(30))))))
                s = ch.call(t, dict(zip(t.args, (SELF, part, C('x'), C(1)))))
                if r is None:
                    raise Undecided(what)
                gs += r
                ts += text_of(s) if text_of(s) is not None else colour_skeleton(s)
                want_g += ([('F', b)] if b else []) + ([('S', c)] if u else [])
                want_t += [('Tj', c)]
        except Undecided as e:
            rep.unk('drawn', g.loc(), str(e))
            continue
        rep.count('sequences of styled text followed')
        drawn(rep, g.loc(), gs, want_g, what)
        drawn(rep, t.loc(), ts, want_t, what)


def part_of(ch, kvs, fonts):
    f = ch.prog.func('PDFTextLinePart.__init__')
    ch.n += 1
    o = ('obj', 'PDFTextLinePart', ch.n)
    style = ch.mk.d(kvs)
    st0 = ch.st
    parts = [p for p in ch.eng.analyse(f, args={f.args[0]: o, f.args[1]: style, f.args[2]: fonts, **{k: v for k, v in defaults(f).items()}}, state=ch.st) if not p.raised]
    ch.rep.functions |= ch.eng.analysed
    if not parts:
        raise Undecided('no way to make a part of a line')
    # the ways differ in the font only
    ch.st = parts[0].state
    ch.mk.st = ch.st
    return o


def colour_skeleton(t):
    """the literal text of a string whose holes are numbers and names"""
    if t is None or t[0] != 'cat':
        raise Undecided('text stream')
    return ''.join(x[1] if x[0] == 'lit' else '0' for x in t[2])


# ------------------------------------------------------------------ borders of cells
def borders(prog, rep):
    """a border drawn in its own colour: one of another colour does not lengthen the line before it"""
    f = prog.func('PDFTable.process_borders')
    keep = opaque_but(prog, own_helpers(prog, f))
    for ca, cb in itertools.product(PALETTE, repeat=2):
        for side in ('top', 'left'):
            eng = Engine(prog, opaque=keep)
            eng.nomerge = True
            eng.exact_try = eng.fold_globals = True
            eng.inline_set = set(getattr(eng, 'inline_set', ())) | {'PDFColor.__eq__'}
            ch = Chain(prog, rep, eng)
            try:
                a, b = ch.color(spec_of(ca), True), ch.color(spec_of(cb), True)
            except Undecided as e:
                rep.unk('drawn', f.loc(), str(e))
                continue
            mk, st = ch.mk, ch.st
            old = mk.d([('type', C('line')), ('width', C(1)), ('color', a), ('style', C('solid'))] + [(k, C(1)) for k in ('x1', 'y1', 'x2', 'y2')])
            new = mk.d([('width', C(1)), ('color', b), ('style', C('solid'))])
            lines = mk.l([old])
            none = mk.d([])
            st.heap[('a', SELF, 'top_lines')] = lines if side == 'top' else mk.l([])
            st.heap[('a', SELF, 'top_lines_interrupted')] = C(side != 'top')
            st.heap[('a', SELF, 'vert_lines')] = mk.l([mk.d([('list', lines if side == 'left' else mk.l([])), ('interrupted', C(side != 'left'))])])
            for k, v in (('x_abs', 10), ('y_abs', 20), ('width', 100)):
                st.heap[('a', SELF, k)] = C(v)
            st.heap[('a', SELF, 'widths')] = mk.l([C(1)])
            args = dict(zip(f.args[1:], (C(0), new if side == 'left' else none, new if side == 'top' else none)))
            for p in eng.analyse(f, args=args, state=st):
                rep.functions |= eng.analysed
                if p.raised:
                    rep.bad('drawn', f.loc(), 'a border fails')
                    continue
                items = p.heap.get(('L', lines[1]))
                what = 'a border in %s after one in %s' % (cb, ca)
                if items is None or any(x[0] != 'dict' for x in items):
                    rep.unk('drawn', f.loc(), what)
                    continue
                got = [known_color(None, p, attr_of(eng, p.state, eng.dict_get(x, C('color'), NONE, p.state), 'color')) for x in items]
                if any(not g for g in got):
                    rep.unk('drawn', f.loc(), what)
                    continue
                got = [tuple(x[2] for x in g) for g in got]
                ok = [tuple(map(float, g)) for g in got] in ([tuple(map(float, ca)), tuple(map(float, cb))],) + (([tuple(map(float, ca))],) if ca == cb else ())
                rep.check(ok, 'drawn', f.loc(), '%s: the lines are in %s' % (what, got))
