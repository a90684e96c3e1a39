"""C30: table borders and fills cover exactly the cells they are declared for."""
import itertools
from .common import *
from .c21 import Maker
from .c22 import unv
from .c24 import entry
from .c26 import Chain, Undecided, defaults, attr_of, opaque_but

TECHNIQUE = ('constant propagation with symbolic coordinates over seeded shapes: every division of small grids into cells, and lists of border and fill declarations, are folded '
             'through the table code at any position and of any width, with stand-in paragraphs of known height; the affine line and fill records that result are compared '
             'with the edges and cells of the grid, in one piece and continued over pages. Position strings are folded on their own and compared with list slices')

X, Y, W = ('sym', '$x'), ('sym', '$y'), ('sym', '$width')      # where a table is drawn and how wide: any numbers
HEIGHT, LINE = 600, 5
# coordinates are affine in x, y and the width: what agrees for four independent choices agrees for all
CHOICES = ((100, 700, 240), (37, 700, 240), (100, 655, 240), (100, 700, 331))
TEXTS = ('ghost', 'texts')


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('position', 'a position string selects the rows and columns a list slice or a list of indexes would')
    rep.rule('edge', 'every edge of the grid is drawn with the border declared for it, unless it lies inside a cell or the width is zero, and nothing else is drawn')
    rep.rule('fill', 'every cell is filled with its own colour, else with the one declared for its position, over exactly its rectangle')
    rep.rule('text', 'the text of a cell lies inside the edges of the cell')
    rep.section('position', positions, prog, rep)
    for what, spec in itertools.chain(tables(rep), broken(rep), divisions(rep)):
        rep.count('tables folded')
        rep.section('edge', table, prog, rep, what, spec)


# ------------------------------------------------------------------ positions
def positions(prog, rep):
    f = prog.func('PDFTable.parse_pos_string')
    singles = ['', ':', '0', '1', '-1', '0,2', '0, -1', '-2,1', '1:', ':2', '::2', '1::2', ':-1', '-2:', '0:2', '1:3:1', ' 1 : ', '-2:-1', ':3:2', '::-1', '-1::-2', ':1', '3', '2:1']
    pairs = [(a, None) for a in singles] + [(a, ':') for a in singles] + [(':', a) for a in singles] + [('1', '0,2'), ('::2', '-1'), ('-1', '1:'), ('0,1', '0,1')]
    for (a, b), counts in itertools.product(pairs, ((3, 4), (4, 2), (1, 1)) if rep.tier != 'thorough' else itertools.product((1, 2, 3, 4, 5), repeat=2)):
        want = chosen(a, counts[0]), chosen(':' if b is None else b, counts[1])
        eng = Engine(prog)
        eng.exact_try = eng.fold_globals = True
        eng.nomerge = True
        text = a if b is None else a + ';' + b
        st = State()
        for p in eng.analyse(f, args={f.args[1]: C(text), f.args[2]: ('tuple', (C(counts[0]), C(counts[1])))}, state=st):
            rep.functions |= eng.analysed
            what = 'the position %r of %d by %d' % (text, *counts)
            if p.raised:
                rep.check(None if p.facts else False, 'position', f.loc(), '%s fails' % what)
                continue
            got = yielded(p)
            if got is None:
                rep.unk('position', f.loc(), what)
                continue
            ok = {(i, j) for i, j in got if 0 <= i < counts[0] and 0 <= j < counts[1]} == set(itertools.product(*want))
            rep.check(ok, 'position', f.loc(), '%s selects %s' % (what, sorted(set(got))[:8]))


def chosen(s, n):
    """the indexes of a list of n elements"""
    s = s.strip()
    if ':' in s or s == '':
        parts = [int(x) if x.strip() else None for x in s.split(':')]
        return set(range(n)[slice(*parts)] if len(parts) > 1 else range(n))
    return {i for i in (int(x) if int(x) >= 0 else n + int(x) for x in s.split(',')) if 0 <= i < n}


def yielded(p):
    out = []
    for e in p.trace:
        if e.kind == 'yield':
            v = e.a[0] if isinstance(e.a, tuple) and e.a and isinstance(e.a[0], tuple) else e.a
            if v[0] != 'tuple' or not all(is_num_c(x) for x in v[1]):
                return None
            out.append(tuple(x[2] for x in v[1]))
        elif e.kind == 'loop':
            return None
    if p.ret is not None and p.ret[0] in ('list', 'tuple'):
        xs = p.ret[1] if p.ret[0] == 'tuple' else p.heap.get(('L', p.ret[1]))
        for v in xs or ():
            if v[0] != 'tuple' or not all(is_num_c(x) for x in v[1]):
                return None
            out.append(tuple(x[2] for x in v[1]))
    return out


# ------------------------------------------------------------------ shapes
def cell(lines=1, cs=1, rs=1, fill=None, margins=None):
    return dict(lines=lines, cs=cs, rs=rs, fill=fill, margins=margins)


def tables(rep):
    """(what, dict(rows, widths, style, borders, fills)); a cell is a number of lines, a cell(..) or None under a span"""
    c = cell
    plain = [[1, 2, 1], [1, 1, 3], [2, 1, 1]]
    yield 'a plain table', dict(rows=plain)
    yield 'a single cell', dict(rows=[[1]])
    yield 'given widths', dict(rows=plain, widths=[1, 2, 5])
    yield 'no borders', dict(rows=plain, style=dict(border_width=0))
    yield 'an outer frame', dict(rows=plain, style=dict(border_width=0), borders=[dict(pos='h0,-1;:', width=2), dict(pos='v:;0,-1', width=1)])
    for pos in ('h0;0', 'h1;1', 'h3;2', 'h-1;0', 'v0;0', 'v1;1', 'v2;3', 'v:;1', 'h1;:', 'h::2;:', 'v0;::2', 'v-1;-1', 'h:;-1', 'h1,2;0,2', 'h2', 'v1'):
        yield 'the border %s' % pos, dict(rows=plain, borders=[dict(pos=pos, width=3)])
        yield 'the colour of the border %s' % pos, dict(rows=plain, borders=[dict(pos=pos, color='red')])
        yield 'the only border %s' % pos, dict(rows=plain, style=dict(border_width=0), borders=[dict(pos=pos, width=1)])
        yield 'no border %s' % pos, dict(rows=plain, borders=[dict(pos=pos, width=0)])
    yield 'two borders at a place', dict(rows=plain, borders=[dict(pos='h1;:', width=3), dict(pos='h1;1', width=1, style='dashed')])
    for pos in ('h1;1', 'v1;1', 'h:;0', 'v:;2'):
        yield 'the style of the border %s' % pos, dict(rows=plain, borders=[dict(pos=pos, style='dashed')])
    yield 'the default border', dict(rows=plain, style=dict(border_width=2, border_color='blue', border_style='dotted'), borders=[dict(pos='h1;:', color='red')])
    spans = [
        ('two columns', [[c(1, cs=2), None, 1], [1, 1, 1]]),
        ('the last two columns', [[1, 1, 1], [1, c(1, cs=2), None]]),
        ('all columns', [[1, 1, 1], [c(1, cs=3), None, None], [1, 1, 1]]),
        ('two rows', [[c(1, rs=2), 1], [None, 1], [1, 1]]),
        ('the last two rows', [[1, 1], [1, c(1, rs=2)], [1, None]]),
        ('three rows', [[c(4, rs=3), 1, 1], [None, 1, 1], [None, 1, 1], [1, 1, 1]]),
        ('two rows and columns', [[1, 1, 1], [1, c(1, cs=2, rs=2), None], [1, None, None], [1, 1, 1]]),
        ('two rows and the first columns', [[c(1, cs=2, rs=2), None, 1], [None, None, 1], [1, 1, 1]]),
        ('tall rows', [[c(9, rs=2), 1], [None, 1], [1, 1]]),
        ('rows before columns', [[c(1, rs=3), 1, 1], [None, c(1, cs=2), None], [None, 1, 1]]),
        ('columns after rows that end', [[c(1, rs=2), 1, 1], [None, c(1, cs=2), None], [1, 1, 1]]),
        ('two neighbours over two rows', [[c(1, rs=2), c(2, rs=2), 1], [None, None, 1], [1, 1, 1]]),
        ('rows that start one after the other', [[c(1, rs=2), 1, 1], [None, c(1, rs=2), 1], [1, None, 1]]),
        ('columns above rows', [[c(1, cs=2), None], [c(1, rs=2), 1], [None, 1]]),
        ('four columns in the middle', [[1, c(1, cs=2), None, 1], [1, 1, 1, 1]]),
        ('two pairs of columns', [[c(1, cs=2), None, c(1, cs=2), None], [1, 1, 1, 1]]),
        ('rows over wide rows', [[c(1, cs=2, rs=3), None, 1, 1], [None, None, c(1, cs=2), None], [None, None, 1, 1]]),
    ]
    for name, rows in spans:
        yield 'a cell over %s' % name, dict(rows=rows)
        filled = [[dict(cell(x) if isinstance(x, int) else x, fill='red' if (i + j) % 2 == 0 else None) if x is not None else None for j, x in enumerate(r)] for i, r in enumerate(rows)]
        yield 'a filled cell over %s' % name, dict(rows=filled, fills=[dict(pos=':;0', color='blue')])
        yield 'a cell over %s with wide borders' % name, dict(rows=rows, borders=[dict(pos='h:;::2', width=2, color='red'), dict(pos='v:;1', width=3)])
    for pos in ('0;0', '1;:', ':;1', '::2;:', '-1;-1', '0,2;1', '1:;1:', '2'):
        yield 'the fill %s' % pos, dict(rows=plain, fills=[dict(pos=pos, color='red')])
    yield 'two fills at a place', dict(rows=plain, fills=[dict(pos='1;:', color='red'), dict(pos=':;1', color='blue')])
    yield 'the fill of all cells', dict(rows=plain, style=dict(cell_fill='red'))
    yield 'the fill of a cell', dict(rows=[[c(1, fill='red'), 1], [2, c(1, fill='blue')]], fills=[dict(pos='0;:', color=0.25)], style=dict(cell_margin=2))
    yield 'margins', dict(rows=[[c(1, margins=dict(cell_margin=9)), 1], [c(1, fill='red', margins=dict(cell_margin_left=8, cell_margin_top=1)), 1]], fills=[dict(pos=':', color=0.5)])
    yield 'margins of the table', dict(rows=plain, style=dict(cell_margin_left=12, cell_margin_bottom=2, cell_fill=0.5))


def tilings(R, K):
    """every division of a grid into cells, where each row has a cell of its own"""
    def go(grid):
        for i in range(R):
            for j in range(K):
                if grid[i][j] is not False:
                    continue
                for rs in range(1, R - i + 1):
                    for cs in range(1, K - j + 1):
                        spots = [(a, b) for a in range(i, i + rs) for b in range(j, j + cs)]
                        if all(grid[a][b] is False for a, b in spots):
                            g = [list(r) for r in grid]
                            for a, b in spots:
                                g[a][b] = None
                            g[i][j] = (rs, cs)
                            yield from go(g)
                return
        if all(any(x is not None and x[0] == 1 for x in r) for r in grid):
            yield grid
    yield from go([[False] * K for _ in range(R)])


def broken(rep):
    """tables that do not fit where they are drawn, and go on elsewhere"""
    c = cell
    red = dict(fill='red')
    shapes = [
        ('plain', [[1, 2, 1], [1, 1, 3], [2, 1, 1], [1, 1, 1]]),
        ('a tall cell', [[1, 12, 1], [1, 1, 1]]),
        ('tall cells', [[1, 1, 1], [15, 9, 4], [1, 1, 1]]),
        ('a filled cell beside a tall one', [[1, 1, 1], [c(14), c(1, **red), c(4, **red)], [1, 1, 1]]),
        ('a wide cell beside a tall one', [[c(14), c(1, cs=2, **red), None], [1, 1, 1]]),
        ('a tall wide cell', [[c(14, cs=2, **red), None, c(2, fill=0.5)], [1, 1, 1]]),
        ('margins', [[c(14, margins=dict(cell_margin_left=9)), c(3, margins=dict(cell_margin=1), **red), 1], [1, 1, 1]]),
        ('a tall cell over rows', [[c(14, rs=2, **red), 1, 1], [None, 1, 1], [1, 1, 1]]),
        ('a cell over a tall row', [[c(1, rs=2, **red), 14, 1], [None, 1, 1], [1, 1, 1]]),
        ('a cell over rows, the second one tall', [[c(1, rs=2, **red), 1, 1], [None, 14, 1], [1, 1, 1]]),
        ('a cell over rows on two pages', [[1, 1, 1], [1, 1, 1], [c(1, rs=2, **red), 1, 1], [None, 1, 1]]),
    ]
    for name, rows in shapes:
        for room in (40, 60, 75):
            for kw in (dict(), dict(fills=[dict(pos=':;0', color='blue'), dict(pos='1;2', color=0.75)], borders=[dict(pos='v:;1', width=2, color='red'), dict(pos='h1;:', width=1)]),
                       dict(style=dict(cell_fill=0.5, border_width=1, border_color='blue')))[:3]:
                yield '%s in parts of %d%s' % (name, room, ' with ' + ' and '.join(kw) if kw else ''), dict(rows=rows, room=room, **kw)
    n = 0
    for R, K in ((3, 3),) if rep.tier != 'thorough' else ((3, 3), (2, 3), (3, 2), (2, 4), (4, 2)):
        for g in tilings(R, K):
            for v in range(3) if rep.tier == 'thorough' else (n % 3,):
                rows = [[None if x is None else cell((1, 9, 3, 2, 14)[(i * 2 + j * 3 + v) % 5], cs=x[1], rs=x[0], fill='red' if (i + j) % 2 == 0 else None) for j, x in enumerate(r)]
                        for i, r in enumerate(g)]
                room = (45, 60, 80)[v]
                yield 'cells %s in parts of %d' % (title(g), room), dict(rows=rows, room=room, fills=[dict(pos=':;0', color='blue')], borders=[dict(pos='v:;1', width=3)])
            n += 1


def title(g):
    return '; '.join(' '.join('.' if x is None else '%dx%d' % x for x in r) for r in g)


def divisions(rep):
    for R, K in ((3, 3), (2, 4), (4, 2)) if rep.tier != 'thorough' else ((3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (2, 5)):
        for g in tilings(R, K):
            rows = [[None if x is None else cell(1 + (i + 2 * j) % 3, cs=x[1], rs=x[0], fill='red' if (i + j) % 2 == 0 else None) for j, x in enumerate(r)] for i, r in enumerate(g)]
            yield 'cells %s' % title(g), dict(rows=rows, borders=[dict(pos='h:;::2', width=2, color='red'), dict(pos='v:;1', width=3)], fills=[dict(pos=':;0', color='blue')])


# ------------------------------------------------------------------ folding
def engine(prog):
    keep = {m.qual for m in prog.cls('PDFTable').methods.values()} | {'process_style', 'parse_style_str'}
    eng = Engine(prog, opaque=opaque_but(prog, keep), inline_str=True)
    eng.nomerge = True
    eng.exact_try = eng.fold_globals = eng.generators = True
    eng.inline_set = set(getattr(eng, 'inline_set', ())) | {'PDFColor.__eq__'}
    eng.recursion, eng.max_depth, eng.unwind = 6, 60, 60
    stand_ins(prog, eng)
    return eng


def stand_ins(prog, eng):
    """paragraphs of as many lines as their text says, LINE high each"""
    base = prog.cls('PDFTextBase')

    def create(eng, st, recv, argmap, e):
        content = argmap.get('content')
        h = st.heap
        for k in ('x', 'y', 'width', 'height'):
            h[('a', recv, k)] = argmap.get(k) or C(0)
        text = lines_of(eng, st, content)
        h[('a', recv, 'lines left')] = C(text[1])
        h[('a', recv, 'which')] = C(text[0])
        h[('a', recv, 'finished')] = C(False)
        return [(st, NONE)]

    def place(eng, st, recv, argmap, e):
        for k in ('x', 'y', 'width', 'height'):
            v = argmap.get(k)
            if v is not None and v != NONE:
                st.heap[('a', recv, k)] = v
        return [(st, NONE)]

    def layout(eng, st, recv, argmap, e):
        place(eng, st, recv, argmap, e)
        h = st.heap
        left, room = h[('a', recv, 'lines left')], h[('a', recv, 'height')]
        if not is_num_c(room):
            raise Undecided('the height given to a paragraph')
        n = max(0, min(left[2], int(room[2] // LINE)))
        h[('a', recv, 'lines left')] = C(left[2] - n)
        h[('a', recv, 'finished')] = C(left[2] == n)
        h[('a', recv, 'current_height')] = C(n * LINE)
        h[TEXTS] = ('trace',) + h[TEXTS][1:] + ((h[('a', recv, 'which')], h[('a', recv, 'x')], h[('a', recv, 'y')], h[('a', recv, 'width')], C(n * LINE)),)
        d = ('dict', eng.new_id())
        h[('D', d[1])] = ()
        return [(st, d)]

    def state(eng, st, recv, argmap, e):
        d = ('dict', eng.new_id())
        st.heap[('D', d[1])] = (('kv', C('left'), st.heap[('a', recv, 'lines left')]),)
        return [(st, d)]

    def restore(eng, st, recv, argmap, e):
        return [(st, NONE)]
    eng.stubs['PDFText.__init__'] = create
    for n, s in (('setup', place), ('run', layout), ('get_state', state), ('set_state', restore)):
        eng.stubs['PDFTextBase.' + n] = s


def lines_of(eng, st, content):
    """text 'name:lines'"""
    if content is not None and content[0] == 'dict':
        for lay in st.heap.get(('D', content[1]), ()):
            if lay[0] == 'kv' and is_c(lay[1]) and str(lay[1][2]).startswith('.'):
                content = lay[2]
    if content is None or not is_c(content) or not isinstance(content[2], str):
        raise Undecided('the text of a cell')
    name, _, n = content[2].partition(':')
    return name, int(n or 1)


def value(mk, v):
    if isinstance(v, dict):
        return mk.d([(k, value(mk, x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return mk.l([value(mk, x) for x in v])
    return NONE if v is None else C(v)


def content_of(mk, rows):
    out = []
    for i, r in enumerate(rows):
        cells = []
        for j, x in enumerate(r):
            if x is None:
                cells.append(NONE)
                continue
            if isinstance(x, int):
                cells.append(C('%d.%d:%d' % (i, j, x)))
                continue
            kv = [('.', C('%d.%d:%d' % (i, j, x['lines'])))]
            style = dict(x['margins'] or {})
            if x['fill']:
                style['cell_fill'] = x['fill']
            if style:
                kv.append(('style', value(mk, style)))
            if x['cs'] > 1:
                kv.append(('colspan', C(x['cs'])))
            if x['rs'] > 1:
                kv.append(('rowspan', C(x['rs'])))
            cells.append(mk.d(kv))
        out.append(mk.l(cells))
    return mk.l(out)


def table(prog, rep, what, spec):
    f = prog.func('PDFTable.run')
    try:
        ch = Chain(prog, rep, engine(prog))
        ch.st.heap[TEXTS] = ('trace',)
        for v in (X, Y, W):
            ch.st.facts[('isnone', v)] = False
        args = dict(content=content_of(ch.mk, spec['rows']), fonts=('obj', 'PDFFonts', 790001), pdf=NONE, x=X, y=Y, width=W, height=C(HEIGHT))
        for k in ('widths', 'style', 'borders', 'fills'):
            args[k] = value(ch.mk, spec[k]) if spec.get(k) is not None else NONE
        t = ch.new('PDFTable', **args)
        if not spec.get('room'):
            ch.call(f, {f.args[0]: t, **defaults(f)})
            got = result(ch, t)
            rep.check(got['finished'] == C(True), 'text', f.loc(), '%s: not finished' % what)
            judge(rep, f, what, spec, got)
            return
        first = 0
        for page in range(8):
            ch.st.heap[TEXTS] = ('trace',)
            ch.call(f, {f.args[0]: t, **defaults(f), **{'x': X, 'y': Y, 'width': W, 'height': C(spec['room'])}})
            got = result(ch, t)
            rows = [int(x[0].partition('.')[0]) for x in got['texts'] if x[0][:1].isdigit()]
            if not rows:
                raise Undecided('no row on a page')
            last = max(rows + [first])
            done = got['finished'] == C(True)
            now = number(attr_of(ch.eng, ch.st, t, 'current_index'))
            judge(rep, f, '%s, part %d' % (what, page + 1), spec, got, first, last, now > last)
            if done:
                break
            first = now
        else:
            rep.bad('text', f.loc(), '%s: not finished' % what)
    except Undecided as e:
        rep.unk('edge', f.loc(), '%s: %s' % (what, e))


class Coordinate:
    """an affine function of x, y and the width"""

    def __init__(self, parts):
        self.parts = parts

    def at(self, choice):
        return float(sum(c * (1 if v is None else choice[(X, Y, W).index(v)]) for v, c in self.parts.items()))


def number(t):
    t = unv(t) if t is not None else t
    if t is None:
        raise Undecided('a coordinate')
    if is_num_c(t):
        return t[2]
    out = {}
    for m, c in to_poly(t).items():
        if m == ():
            out[None] = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in (X, Y, W):
            out[m[0][0]] = c
        else:
            raise Undecided('the coordinate %s' % show(t)[:60])
    return Coordinate(out)


def at(v, choice):
    """what was found, for a choice of x, y and width"""
    if isinstance(v, Coordinate):
        return v.at(choice)
    if isinstance(v, dict):
        return {k: at(x, choice) for k, x in v.items()}
    if isinstance(v, list):
        return [at(x, choice) for x in v]
    if isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0] in ('c', 'sym', 'fn', 'attr')):
        return tuple(at(x, choice) for x in v)
    return v


def result(ch, t):
    st = ch.st

    def recs(name):
        v = unv(attr_of(ch.eng, st, t, name))
        xs = st.heap.get(('L', v[1])) if v[0] == 'list' else None
        if xs is None or any(x[0] != 'dict' for x in xs):
            raise Undecided('the ' + name)
        return xs

    def colour(o):
        v = unv(attr_of(ch.eng, st, o, 'color'))
        if v == NONE:
            return None
        xs = v[1] if v[0] == 'tuple' else st.heap.get(('L', v[1])) if v[0] == 'list' else None
        if xs is None or not all(is_num_c(x) for x in xs):
            raise Undecided('a colour')
        return tuple(float(x[2]) for x in xs)
    lines = []
    for d in recs('lines'):
        g = {k: entry(_P(st), d, k) for k in ('x1', 'y1', 'x2', 'y2', 'width', 'color', 'style')}
        if any(not v for v in g.values()) or not is_c(g['style']):
            raise Undecided('a line')
        lines.append(dict(x1=number(g['x1']), y1=number(g['y1']), x2=number(g['x2']), y2=number(g['y2']), width=number(g['width']), color=colour(g['color']), style=g['style'][2]))
    fills = []
    for d in recs('fills'):
        g = {k: entry(_P(st), d, k) for k in ('x', 'y', 'width', 'height', 'color')}
        if any(not v for v in g.values()):
            raise Undecided('a fill')
        fills.append(tuple(number(g[k]) for k in ('x', 'y', 'width', 'height')) + (colour(g['color']),))
    texts = [(x[0][2],) + tuple(number(y) for y in x[1:]) for x in st.heap[TEXTS][1:]]
    return dict(lines=lines, fills=fills, texts=texts, height=number(attr_of(ch.eng, st, t, 'current_height')), finished=unv(attr_of(ch.eng, st, t, 'finished')))


class _P:
    def __init__(self, st):
        self.state, self.heap, self.facts = st, st.heap, st.facts


# ------------------------------------------------------------------ oracle
COLORS = {'red': (1.0, 0.0, 0.0), 'blue': (0.0, 0.0, 1.0)}


def rgb(c):
    return COLORS[c] if isinstance(c, str) else (float(c),)


def border_at(spec, i, j, vert, R, K):
    st = spec.get('style') or {}
    b = dict(width=st.get('border_width', 0.5), color=rgb(st.get('border_color', 0)), style=st.get('border_style', 'solid'))
    out = dict(b)
    for d in spec.get('borders') or ():
        if (d['pos'][0] == 'v') != vert:
            continue
        parts = d['pos'][1:].split(';')
        counts = (R, K + 1) if vert else (R + 1, K)
        a = chosen(parts[0], counts[0])
        c = chosen(parts[1] if len(parts) > 1 else ':', counts[1])
        if i in a and j in c:
            out = dict(b)
            out.update({k: (rgb(v) if k == 'color' else v) for k, v in d.items() if k != 'pos'})
    return out


def owner(rows):
    own = {}
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            if x is None:
                continue
            x = cell(x) if isinstance(x, int) else x
            for a in range(i, i + x['rs']):
                for b in range(j, j + x['cs']):
                    own[a, b] = (i, j)
    return own


def margin(spec, x, side):
    m = (x['margins'] or {}) if isinstance(x, dict) else {}
    s = spec.get('style') or {}
    for d in (m,):
        if 'cell_margin_' + side in d:
            return d['cell_margin_' + side]
    if 'cell_margin_' + side in s:
        return s['cell_margin_' + side]
    return m.get('cell_margin', s.get('cell_margin', 5))


def judge(rep, f, what, spec, got, first=0, last=None, whole=True):
    for choice in CHOICES:
        judge_at(rep, f, what, spec, at(got, choice), choice, first, last, whole)


def judge_at(rep, f, what, spec, got, choice, first, last, whole):
    """the rows first to last; the first may be continued from the page before, the last is complete or not (whole)"""
    X0, Y0, WIDTH = choice
    rows = spec['rows']
    R, K = len(rows), len(rows[0])
    last = R - 1 if last is None else last
    part = range(first, last + 1)
    own = owner(rows)
    w = spec.get('widths') or [1] * K
    xs = [X0 + WIDTH * sum(w[:j]) / sum(w) for j in range(K + 1)]
    # the top of a row, seen from the text of its cells
    tops = {}
    for name, x, y, width, h in got['texts']:
        i, _, j = name.partition('.')
        if not (i.isdigit() and j.isdigit()):
            continue            # the filler of a spanned cell
        i, j = int(i), int(j)
        c = rows[i][j]
        m = margin(spec, c, 'top')
        i = max(i, first)
        top = y + border_at(spec, i, j, False, R, K)['width'] / 2 + m
        if i in tops and abs(tops[i] - top) > 1e-6:
            rep.bad('text', f.loc(), '%s: the cells of row %d start at different heights: %s' % (what, i, (tops[i], top)))
            return
        tops[i] = top
    tops[last + 1] = Y0 - got['height']
    if any(i not in tops for i in part):
        rep.unk('edge', f.loc(), '%s: the rows' % what)
        return
    ys = {i: tops[i] for i in range(first, last + 2)}
    top, bottom = ys[first], ys[last + 1]
    rep.check(abs(top - Y0) < 1e-6 and all(ys[i] > ys[i + 1] for i in part), 'text', f.loc(), '%s: the rows start at %s' % (what, ys))
    widest = max([border_at(spec, i, j, v, R, K)['width'] for v in (0, 1) for i in range(R + 1) for j in range(K + 1)] + [0])
    tol = widest / 2 + 1e-6

    # texts inside their cells
    for name, x, y, width, h in got['texts']:
        i, _, j = name.partition('.')
        if not (i.isdigit() and j.isdigit()):
            continue
        i, j = int(i), int(j)
        c = rows[i][j] if isinstance(rows[i][j], dict) else cell(rows[i][j])
        bl, br = border_at(spec, max(i, first), j, True, R, K)['width'] / 2, border_at(spec, max(i, first), j + c['cs'], True, R, K)['width'] / 2
        left, right = xs[j] + bl + margin(spec, c, 'left'), xs[j + c['cs']] - br - margin(spec, c, 'right')
        rep.check(abs(x - left) < 1e-6 and abs(x + width - right) < 1e-6, 'text', f.loc(), '%s: the text of cell %s goes from %g to %g instead of %g to %g' % (what, name, x, x + width, left, right))
        end = min(i + c['rs'], last + 1)
        if h > 0 and (end == i + c['rs'] and (whole or end <= last)):
            low = ys[end] + border_at(spec, i + c['rs'], j, False, R, K)['width'] / 2 + margin(spec, c, 'bottom')
            rep.check(y - h > low - 1e-6, 'text', f.loc(), '%s: the text of cell %s ends at %g, below %g' % (what, name, y - h, low))

    # fills
    want = []
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            if c is None:
                continue
            c = c if isinstance(c, dict) else cell(c)
            lo, hi = max(i, first), min(i + c['rs'], last + 1)
            if lo >= hi:
                continue
            col = c['fill'] or (spec.get('style') or {}).get('cell_fill')
            if col is None:
                for d in spec.get('fills') or ():
                    a = d['pos'].split(';')
                    if i in chosen(a[0], R) and j in chosen(a[1] if len(a) > 1 else ':', K):
                        col = d['color']
            if col is not None:
                want.append((xs[j], ys[hi], xs[j + c['cs']] - xs[j], ys[lo] - ys[hi], rgb(col)))
    left = list(got['fills'])
    for q in want:
        m = [g for g in left if all(abs(a - b) < 1e-6 for a, b in zip(g[:4], q[:4])) and g[4] == q[4]]
        if m:
            left.remove(m[0])
        rep.check(bool(m), 'fill', f.loc(), '%s: the rectangle x=%g y=%g %g by %g in %s is not filled; filled: %s' % ((what,) + q + ([tuple(round(v, 3) for v in g[:4]) + (g[4],) for g in got['fills']],)))
    rep.check(not left, 'fill', f.loc(), '%s: filled without being declared: %s' % (what, left[:2]))

    # edges
    for i in range(first, last + 2):
        for j in range(K):
            inside = 0 < i < R and own.get((i - 1, j)) == own.get((i, j))
            b = border_at(spec, i, j, False, R, K)
            wants = [None if inside else b]
            if i == first and inside or i == last + 1 and inside:
                wants = [None, b]                   # a cell that is cut may be closed there
            if i == last + 1 and not whole:
                wants = [b, border_at(spec, last, j, False, R, K)] + ([None] if inside else [])
            edge(rep, f, what, 'the edge above row %d in column %d' % (i, j), got['lines'], True, ys[i], xs[j], xs[j + 1], tol, wants)
    for i in part:
        for j in range(K + 1):
            inside = 0 < j < K and own.get((i, j - 1)) == own.get((i, j))
            edge(rep, f, what, 'the edge left of column %d in row %d' % (j, i), got['lines'], False, xs[j], ys[i + 1], ys[i], tol, [None if inside else border_at(spec, i, j, True, R, K)])
    for l in got['lines']:
        ok = (abs(l['y1'] - l['y2']) < 1e-6 and any(abs(l['y1'] - y) < 1e-6 for y in ys.values()) and min(l['x1'], l['x2']) > xs[0] - tol and max(l['x1'], l['x2']) < xs[-1] + tol) or \
             (abs(l['x1'] - l['x2']) < 1e-6 and any(abs(l['x1'] - x) < 1e-6 for x in xs) and min(l['y1'], l['y2']) > bottom - tol and max(l['y1'], l['y2']) < top + tol)
        rep.check(ok, 'edge', f.loc(), '%s: a line from (%g, %g) to (%g, %g) is not on the grid' % (what, l['x1'], l['y1'], l['x2'], l['y2']))


def edge(rep, f, what, name, lines, horiz, at, lo, hi, tol, borders):
    """the points just inside the ends and the middle of an edge"""
    for x in (lo + tol + 1e-3, (lo + hi) / 2, hi - tol - 1e-3):
        on = []
        for l in lines:
            a, b = ('y', 'x') if horiz else ('x', 'y')
            if abs(l[a + '1'] - at) < 1e-6 and abs(l[a + '2'] - at) < 1e-6 and min(l[b + '1'], l[b + '2']) - 1e-6 <= x <= max(l[b + '1'], l[b + '2']) + 1e-6:
                on.append(l)
        looks = {(l['width'], l['color'], l['style']) for l in on if l['width'] > 0}
        wants = [set() if b is None or b['width'] == 0 else {(b['width'], b['color'], b['style'])} for b in borders]
        if looks not in wants:
            rep.bad('edge', f.loc(), '%s: %s is drawn as %s instead of %s' % (what, name, sorted(looks, key=repr), sorted(wants[0], key=repr)))
            return
    rep.ok('edge', f.loc())
