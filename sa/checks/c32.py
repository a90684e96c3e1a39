"""C32: no word is lost or repeated when text continues.  Seeded paragraphs are folded through the text code, box after
box, and the words read back from the operators are compared with those of the content."""
from .common import *
from .layout import fold, build
from .c26 import Undecided

TECHNIQUE = ('constant propagation with stand-in fonts: seeded paragraphs (pieces that share words, line breaks, lists, indents) are folded through the text code '
             'for many widths and sequences of heights, continued by the same object or from a saved state; the words in the operators of all parts are compared with '
             'the words of the content')


def run(prog, rep):
    rep.rule('words', 'the words drawn over all parts are those of the content, in order, each once')
    rep.rule('breaks', 'after a line break of the content the text goes on in a new line')
    rep.rule('whole', 'a word is not divided between lines')
    rep.rule('progress', 'a part that has room for the next line draws it')
    for what, content, kw, boxes in cases(rep):
        for fresh in (False, True):
            if len(boxes) == 1 and boxes[0][1] > 1000 and fresh:
                continue
            rep.section('words', one, prog, rep, what, content, kw, boxes, fresh)


BODIES = [
    ('plain', ['one two three four five six seven eight']),
    ('bold in between', ['one two ', {'.b': ['three four']}, ' five six']),
    ('words of several pieces', ['one tw', {'.b': ['o th']}, 'ree fo', {'.i': ['ur']}, ' five', {'.s:14': ['six seven']}, 'eight nine']),
    ('a word of three pieces', ['one two ', {'.b': ['th']}, 'r', {'.i': ['ee']}, ' four five']),
    ('words of three pieces', ['al', {'.b': ['ph']}, 'a b', {'.i': ['et']}, 'a g', {'.b': ['am']}, 'ma d', {'.': ['el']}, 'ta e', {'.b': ['psi']}, 'lon']),
    ('spaces', ['  one   two ', {'.b': ['  three']}, '  ', {'.i': ['four  ']}, ' five  ']),
    ('a space on its own', ['one', {'.b': [' ']}, 'two', ' ', {'.i': ['three']}, {'.b': [' ']}, 'four five']),
    ('breaks', ['one two\nthree\nfour five six seven\neight']),
    ('breaks beside pieces', ['one two\n', {'.b': ['three\nfour']}, '\nfive six']),
    ('empty lines', ['one\n\ntwo three four\n\n\nfive']),
    ('breaks at the ends', ['\none two three\n']),
    ('a break within bold text', [{'.b': ['one two\nthree four five']}, ' six']),
    ('long words', ['one abcdefghijklmnopqrstuvwxyz two abcdefghijklmnopqrst']),
    ('a long word first', ['abcdefghijklmnopqrstuvwxyz two three']),
    ('long words of pieces', ['one abcdefghij', {'.b': ['klmnopqrst']}, 'uvwxyz two']),
    ('numbers', ['one ', 2, {'.b': [3, ' four']}, ' 5 six']),
    ('nested', [{'.': ['one ', {'.b': ['two ', {'.i': ['three four']}, ' five']}, ' six']}, ' seven']),
    ('empty pieces', ['', 'one ', {'.b': ['']}, 'two three', {'.': ['']}, ' four', '']),
    ('sizes', ['one ', {'.s:20': ['two']}, ' three four ', {'.s:6': ['five six']}, ' seven']),
    ('raised', ['one ', {'.r:0.5': ['two']}, ' three ', {'.r:-0.5': ['four five']}, ' six']),
    ('same words', ['a a a a a a', {'.b': [' a a a']}, ' a']),
]
SETS = [{}, {'text_align': 'j'}, {'text_align': 'r'}, {'text_align': 'c'}, {'indent': 20}, {'text_align': 'j', 'indent': 15}, {'list_text': '1.'}, {'list_text': '-', 'list_indent': 12, 'text_align': 'j'},
        {'line_height': 1.6}]


def cases(rep):
    n = 0
    heights = [[13], [26], [13, 40], [5, 30], [0, 14, 28], [27, 13, 60], [24]]
    for name, body in BODIES:
        for width in (34, 57, 83, 121, 400):
            for kw in SETS if rep.tier == 'thorough' else [SETS[0], SETS[n % len(SETS)], SETS[(n + 4) % len(SETS)]]:
                n += 1
                for hs in heights + [[2000]] if rep.tier == 'thorough' else (heights[n % len(heights)], heights[(n + 3) % len(heights)], [2000]):
                    what = '%s, width %d, heights %s%s' % (name, width, hs, ''.join(', %s %s' % x for x in kw.items()))
                    yield what, body, kw, [(width, h) for h in hs]
    # widths that change from part to part
    for name, body in BODIES:
        for ws in ((120, 40), (40, 120), (60, 90, 45)):
            yield '%s, widths %s' % (name, ws), body, {}, [(w, 26) for w in ws]


def words_of(content):
    def flat(x):
        if isinstance(x, dict):
            return ''.join(flat(y) for k, v in x.items() if k.startswith('.') for y in v)
        return str(x)
    return [seg.split() for seg in ''.join(flat(x) for x in content).split('\n')]


def one(prog, rep, what, content, kw, boxes, fresh):
    f = prog.func('PDFTextBase.run')
    what += ', continued from its state' if fresh else ''
    try:
        runs = fold(prog, rep, content, kw, boxes, fresh)
    except Undecided as e:
        rep.unk('words', f.loc(), '%s: %s' % (what, e))
        return
    rep.count('paragraphs folded')
    want = words_of(content)
    flat = [w for seg in want for w in seg]
    lines = [l.text.split() for r in runs for l in r.lines]
    got = [w for l in lines for w in l]
    done = runs[-1].finished
    if got != (flat if done else flat[:len(got)]):
        k = next((i for i, (a, b) in enumerate(zip(got, flat)) if a != b), min(len(got), len(flat)))
        rule = 'whole' if ''.join(got) == ''.join(flat) else 'words'
        rep.bad(rule, f.loc(), '%s: word %d is %r instead of %r; lines %s' % (what, k + 1, got[k:k + 1], flat[k:k + 1], [' '.join(l) for l in lines][:12]), key=rule)
        return
    rep.ok('words', f.loc())
    rep.ok('whole', f.loc())
    starts, n = set(), 0
    for l in lines:
        starts.add(n)
        n += len(l)
    n = 0
    for seg in want[:-1]:
        n += len(seg)
        if n < len(got):
            rep.check(n in starts, 'breaks', f.loc(), '%s: %r does not start a new line after a break' % (what, flat[n]), key='breaks')
    # a line without words only where the content has one
    empty = sum(not seg for seg in want)
    blank = sum(not l for l in lines)
    if done:
        rep.check(blank == empty, 'breaks', f.loc(), '%s: %d empty lines instead of %d' % (what, blank, empty), key='breaks')
    # room for any line of this paragraph
    for r in runs:
        if not r.lines and not r.finished and r.height > 60:
            rep.bad('progress', f.loc(), '%s: nothing is drawn in a height of %s' % (what, r.height), key='progress')
            return
    if not done and boxes[-1][1] < 60:
        return              # a line may be taller than this
    if not done:
        rep.check(False, 'progress', f.loc(), '%s: not finished after %d parts' % (what, len(runs)), key='progress')
    else:
        rep.ok('progress', f.loc())
