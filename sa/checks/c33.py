"""C33: lines end inside the paragraph.  The lines read back from folded paragraphs are measured with the stand-in fonts and
compared with the width, the alignment, the indents and the words that would still have fitted."""
from .common import *
from .layout import fold
from .c26 import Undecided
from .c29 import WIDTH, TABLE, font_of
from .c32 import BODIES, words_of

TECHNIQUE = ('constant propagation with stand-in fonts: seeded paragraphs are folded through the text code for many widths, alignments, lists, indents and heights; the '
             'positions, widths and word spacing of the lines are read back from the operators and compared with the edges of the paragraph')

TOL = 0.03
SETS = [{}, {'indent': 20}, {'list_text': '1.'}, {'list_text': '10)', 'list_indent': 30}, {'list_text': '-', 'list_style': {'s': 20, 'b': True}}, {'list_text': '-', 'list_indent': 9, 'indent': 6}, {'line_height': 1.6}, {'list_text': '*', 'line_height': 1.3, 'indent': 11}]


def run(prog, rep):
    rep.rule('width', 'a line of more than one word lies between the left and the right edge')
    rep.rule('start', 'a left-aligned or justified line starts at the left edge, after the indent of its paragraph')
    rep.rule('right', 'a right-aligned line ends at the right edge')
    rep.rule('centre', 'a centred line is in the middle')
    rep.rule('justified', 'a justified line that is not the last of its paragraph ends at the right edge')
    rep.rule('spacing', 'words are not stretched in other lines, and not pressed together by more than the minimum factor')
    rep.rule('full', 'a line is ended only where the next word does not fit, or at a break')
    rep.rule('height', 'the lines of a part do not go below its bottom')
    rep.rule('two-byte', 'the words of a justified line in an embedded font are moved by a means that has an effect on its two-byte codes')
    for what, content, kw, boxes in cases(rep):
        rep.section('width', one, prog, rep, what, content, kw, boxes)


EMBEDDED = {r for r, fam, m, w, own in TABLE if own}
OWN = [('embedded', [{'.': ['one two three four ', {'.b': ['five six']}, ' seven'], 'style': {'f': 'Own'}}]),
       ('embedded and not', ['one two ', {'.': ['three four five'], 'style': {'f': 'Own'}}, ' six seven eight'])]


def cases(rep):
    n = 0
    for name, body in OWN:
        for width in (83, 121, 149):
            for align in 'ljrc':
                yield '%s, width %d, text_align %s' % (name, width, align), body, {'text_align': align}, [(width, 2000)]
    for name, body in BODIES:
        for width in (47, 61, 83, 97, 121, 149, 400):
            for align in 'ljrc':
                for kw in SETS if rep.tier == 'thorough' else (SETS[0], SETS[1 + n % (len(SETS) - 1)]):
                    n += 1
                    hs = ((2000,), (27, 40), (2000,))[n % 3] if rep.tier != 'thorough' else ((2000,), (27, 40), (15, 29))[n % 3]
                    kw = dict(kw, text_align=align)
                    yield '%s, width %d, heights %s%s' % (name, width, list(hs), ''.join(', %s %s' % x for x in kw.items())), body, kw, [(width, h) for h in hs]


    # widths that change from part to part
    for k, (name, body) in enumerate(BODIES):
        for j, ws in enumerate(((121, 61), (61, 121), (83, 149, 61))):
            kw = dict(SETS[(k + j) % len(SETS)], text_align='ljrc'[(k + j * 2) % 4])
            yield '%s, widths %s%s' % (name, list(ws), ''.join(', %s %s' % x for x in kw.items())), body, kw, [(w, 27 if i < len(ws) - 1 else 2000) for i, w in enumerate(ws)]


def one(prog, rep, what, content, kw, boxes):
    f = prog.func('PDFTextBase.run')
    try:
        runs = fold(prog, rep, content, kw, boxes)
    except Undecided as e:
        rep.unk('width', f.loc(), '%s: %s' % (what, e))
        return
    rep.count('paragraphs folded')
    segs = words_of(content)
    ends, n = set(), 0
    for s in segs:
        n += len(s)
        ends.add(n)
    align = kw.get('text_align', 'l')
    text = kw.get('list_text')
    hang = 0
    if text:
        hang = kw.get('list_indent')
        if hang is None:
            style = dict(own_style(content[0]), **(kw.get('list_style') or {}))
            hang = WIDTH[font_of({'f': 'Helvetica', **style})] * len(text) * style.get('s', 11)
    count, first = 0, True
    bad = set()

    def check(ok, rule, detail):
        if ok:
            rep.ok(rule, f.loc())
        elif rule not in bad:
            bad.add(rule)
            rep.bad(rule, f.loc(), '%s: %s' % (what, detail), key=rule)
    every = [(r, l) for r in runs for l in r.lines]
    for k, (r, l) in enumerate(every):
        words = l.text.split()
        if not words:
            first = False
            continue
        left, right = l.extent()
        edge = hang + (kw.get('indent', 0) if first and align in 'lj' else 0)
        count += len(words)
        last = count in ends or count == n and r.finished
        here = repr(' '.join(words))
        tw = {x[5] for x in l.runs if ' ' in x[0].strip()} or {0}
        if len(words) > 1:
            check(left > hang - TOL and right < r.width + TOL, 'width', 'the line %s goes from %.2f to %.2f, outside %.2f to %s' % (here, left, right, hang, r.width))
        wide = l.natural()[0] > r.width - edge
        if align in 'lj':
            check(abs(left - edge) < TOL, 'start', 'the line %s starts at %.2f instead of %.2f' % (here, left, edge))
        elif not wide:
            if align == 'r':
                # a space at the end may be counted
                check(any(abs(right + s - r.width) < TOL for s in ends_of(l)), 'right', 'the line %s ends at %.2f instead of %s' % (here, right, r.width))
            else:
                check(any(abs((left + right + s) / 2 - (r.width + hang) / 2) < TOL for s in ends_of(l)), 'centre', 'the line %s goes from %.2f to %.2f within %.2f and %s' % (here, left, right, hang, r.width))
        spaces = l.natural()[1]
        if align == 'j' and not last and len(words) > 1:
            check(abs(right - r.width) < TOL, 'justified', 'the line %s ends at %.2f instead of %s' % (here, right, r.width))
        elif align != 'j':
            check(tw == {0}, 'spacing', 'the words of the line %s are moved by %s' % (here, sorted(tw)))
        if align == 'j' and len(words) > 1:
            room = r.width - edge - l.natural()[0]
            factor = (right - left - l.natural()[0]) / spaces
            check(factor > 0.7 - .01 and (not last or factor < 1 + .01), 'spacing', 'the spaces of the line %s are scaled by %.3f' % (here, factor))
        if align == 'j':
            for t, font, size, a, b, s in l.runs:
                if font in EMBEDDED and ' ' in t.strip() and not (s and any(x[0] == 'two-byte' for x in rep.refuted)):
                    check(not s, 'two-byte', 'the words of the line %s are moved by Tw %s, which has no effect on the two-byte codes of an embedded font' % (here, s))
        # the next word
        if not last and k + 1 < len(every):
            r2, m = every[k + 1]
            nxt = m.text.split()
            if nxt:
                w = first_word(m)
                factor = 0.7 if align == 'j' else 1
                a, b = l.natural()
                gap = WIDTH[l.runs[-1][1]] * l.runs[-1][2]
                gaps = [WIDTH[x[1]] * x[2] for x in l.runs + m.runs]
                indent = kw.get('indent', 0) if first else 0
                need = a + (b + max(gaps)) * factor + w
                check(need > r.width - hang - indent - TOL, 'full', 'the line %s ends before %r, which would fit: %.2f of %.2f' % (here, nxt[0], need, r.width - hang - indent))
        first = False
    for r in runs:
        if r.lines:
            low = -r.lines[-1].y
            check(low < r.height + TOL, 'height', 'the last line of a part is at %.2f, below its height of %s' % (low, r.height))


def own_style(x):
    # a piece that is bold from its start on
    return {'b': True} if isinstance(x, dict) and '.b' in x else {}


def ends_of(l):
    t = l.text
    out = [0]
    if t != t.rstrip() and l.runs:
        out.append(sum(len(x[0]) - len(x[0].rstrip()) for x in l.runs[-1:]) * WIDTH[l.runs[-1][1]] * l.runs[-1][2])
    if t != t.lstrip():
        out.append(-(len(t) - len(t.lstrip())) * WIDTH[l.runs[0][1]] * l.runs[0][2])
    return out


def first_word(m):
    w, started = 0, False
    for text, font, size, a, b, tw in m.runs:
        for c in text:
            if c == ' ':
                if started:
                    return w
            else:
                started = True
                w += WIDTH[font] * size
    return w
