"""paragraphs folded through the text code with stand-in fonts (those of C29), and the lines read back from the operators"""
import re
from .common import *
from ..engine import TooComplex
from .c24 import entry
from .c26 import Chain, Undecided, defaults
from .c29 import engine, stand_in_fonts, fonts_heap, term, font_of, FONTS, WIDTH, MARK

TOKEN = re.compile('/(F\\d+) (-?[0-9.]+) Tf|\\(((?:\x01[^\x03]*\x03|[^)\x01])*)\\) ?Tj|(-?[0-9.]+) (-?[0-9.]+) Td|(-?[0-9.]+) Tw|(\\S+)')
IGNORED = {'Ts', 'g', 'rg', 'G', 'RG'}


class Line:
    def __init__(self, x, y):
        self.x, self.y = x, y           # of the first character, from the corner of the paragraph
        self.runs = []                  # (text, font, size, left, right, spacing)
        self.marker = None

    @property
    def text(self):
        return ''.join(r[0] for r in self.runs)

    def extent(self):
        """left and right end of what can be seen"""
        left = right = None
        for text, font, size, a, b, tw in self.runs:
            if not text.strip():
                continue
            w = WIDTH[font] * size
            lead, trail = len(text) - len(text.lstrip()), len(text) - len(text.rstrip())
            if left is None:
                left = a + lead * (w + tw)
            right = b - trail * (w + tw)
        return left, right

    def natural(self):
        """(width of the words, width of the spaces between them) without word spacing"""
        words = spaces = 0
        rest = self.text.strip()
        k = len(self.text) - len(self.text.lstrip())
        for text, font, size, a, b, tw in self.runs:
            w = WIDTH[font] * size
            for c in text:
                if k > 0:
                    k -= 1
                elif rest:
                    rest = rest[1:]
                    if c == ' ':
                        spaces += w
                    else:
                        words += w
        return words, spaces


class Run:
    def __init__(self):
        self.lines, self.finished, self.height, self.width = [], None, None, None


def build(mk, node):
    """a nested content description: a string, a number, or a dict {'.': [...], style: {..}, ..}"""
    if isinstance(node, dict):
        return mk.d([(k, mk.l([build(mk, x) for x in v]) if isinstance(v, list) else term(mk, v)) for k, v in node.items()])
    return C(node)


def fold(prog, rep, content, kw, boxes, fresh=False):
    try:
        return fold_(prog, rep, content, kw, boxes, fresh)
    except TooComplex as e:
        raise Undecided(str(e))


def fold_(prog, rep, content, kw, boxes, fresh):
    """the paragraph laid out in one box after the other, [(width, height)]; the last one is used again and again.
    Continued by the same object, or (fresh) by a new one that is given the state of the one before"""
    f = prog.func('PDFTextBase.run')
    eng = stand_in_fonts(engine(prog))
    eng.max_parts = 60
    ch = Chain(prog, rep, eng)
    mk = ch.mk
    fonts_heap(mk)
    kw = dict(kw)

    def new(width, height):
        c = mk.l([build(mk, x) for x in content])
        return ch.new('PDFText', content=c, width=C(width), height=C(height), fonts=FONTS, pdf=NONE, **{k: term(mk, v) for k, v in kw.items()})
    out = []
    o = new(*boxes[0])
    boxes = list(boxes)
    for n in range(12):
        width, height = boxes[n] if n < len(boxes) else boxes[-1]
        if n and fresh:
            g, s = prog.find_method(prog.cls('PDFText'), 'get_state'), prog.find_method(prog.cls('PDFText'), 'set_state')
            state = ch.call(g, {g.args[0]: o})
            if state is None or state[0] != 'dict':
                raise Undecided('the state')
            keys = [k for k in s.args[1:]]
            args = {}
            for k in keys:
                v = entry(ch.st, state, k)
                if v is None:
                    raise Undecided('the state %s' % k)
                if v is not False:
                    args[k] = v
            o = new(width, height)
            ch.call(s, {s.args[0]: o, **defaults(s), **args})
        r = ch.call(f, {f.args[0]: o, **defaults(f), **({f.args[3]: C(width), f.args[4]: C(height)} if n and not fresh else {})})
        if r is None or r[0] != 'dict':
            raise Undecided('the result')
        t = entry(ch.st, r, 'text_stream')
        if not t or not is_c(t):
            raise Undecided('the operators are %s' % (show(t)[:100] if t else t))
        if ch.st.facts:
            raise Undecided('conditions %s' % list(ch.st.facts)[:2])
        q = Run()
        q.width, q.height = width, height
        q.lines = lines_of(t[2], kw.get('list_text') if not any(x.lines for x in out) else None)
        fin = ch.attr(o, 'finished')
        if not is_c(fin):
            raise Undecided('whether it is finished')
        q.finished = bool(fin[2])
        out.append(q)
        if q.finished:
            return out
    return out


def lines_of(text, marker):
    lines, font, size, tw = [], None, None, 0.0
    x = y = pen = 0.0
    stack = []
    for m in TOKEN.finditer(text):
        if m.group(1):
            font, size = m.group(1), float(m.group(2))
        elif m.group(3) is not None:
            body = m.group(3)
            if MARK.sub('', body) or not lines or font is None:
                raise Undecided('text %r' % body[:40])
            for enc, t in MARK.findall(body):
                w = len(t) * WIDTH[font] * size + t.count(' ') * tw
                lines[-1].runs.append((t, font, size, pen, pen + w, tw))
                pen += w
        elif m.group(4) is not None:
            dx, dy = float(m.group(4)), float(m.group(5))
            x, y = x + dx, y + dy
            pen = x
            if dy or not lines:
                lines.append(Line(x, y))
            elif lines[-1].runs:
                # what was drawn so far on this line is the marker
                lines[-1].marker, lines[-1].runs, lines[-1].x = lines[-1].runs, [], x
            else:
                lines[-1].x = x
        elif m.group(6) is not None:
            tw = float(m.group(6))
        elif not (re.fullmatch('-?[0-9.]+', m.group(7)) or m.group(7) in IGNORED):
            raise Undecided('operator %s' % m.group(7))
    if marker and lines and lines[0].marker is None:
        raise Undecided('the marker')
    return lines
