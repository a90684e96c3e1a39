"""C31: roman page numbers.  The method that gives the number of the current page is folded for every page number of
the domain; the numeral must be the one the additive table of roman numerals gives."""
from .common import *
from .c22 import plain_roman

TECHNIQUE = ('constant propagation through the page number code for every page number from 1 to 3999 in both numbering styles, and for '
             'combinations of page and offset: each numeral is compared with the table of roman numerals')
NOTE = 'The domain is finite and every number of it is folded.'

SELF = ('sym', 'self')


def run(prog, rep):
    rep.rule('numeral', 'in the roman style page n shows the standard roman numeral of n')
    rep.rule('arabic', 'in the arabic style page n shows n in decimal digits')
    rep.rule('offset', 'n is the position of the page, counted from 1, plus the offset')
    rep.section('numeral', numerals, prog, rep)
    rep.section('offset', offsets, prog, rep)
    rep.section('numeral', direct, prog, rep)


def number(prog, rep, rule, page, offset, style, want):
    f = prog.func('PDF.get_page_number')
    st = State()
    st.heap[('a', SELF, 'page_numbering_style')] = C(style)
    st.heap[('a', SELF, 'page_numbering_offset')] = C(offset)
    st.heap[('a', SELF, '_page_index')] = C(page)
    eng = Engine(prog)
    eng.types = {SELF: 'PDF'}
    judge(rep, rule, f, eng.analyse(f, state=st), eng, want, 'page %d with offset %d (%s)' % (page + 1, offset, style))


def judge(rep, rule, f, parts, eng, want, what):
    rep.functions |= eng.analysed
    for p in parts:
        if p.facts:
            rep.unk(rule, f.loc(), '%s: depends on %s' % (what, list(p.facts)[:1]))
        elif p.raised:
            rep.check(False if len(parts) == 1 else None, rule, f.loc(), '%s: no number' % what)
        elif p.ret is not None and is_c(p.ret):
            rep.check(str(p.ret[2]) == want, rule, f.loc(), '%s: shown as %r instead of %r' % (what, p.ret[2], want), key=rule)
        else:
            rep.unk(rule, f.loc(), '%s: %s' % (what, show(p.ret)[:60] if p.ret is not None else None))


def numerals(prog, rep):
    for n in range(1, 4000):
        number(prog, rep, 'numeral', n - 1, 0, 'roman', plain_roman(n))
    for n in list(range(1, 130)) + [999, 1000, 3999, 4000, 12345]:
        number(prog, rep, 'arabic', n - 1, 0, 'arabic', str(n))


def offsets(prog, rep):
    for page in (0, 1, 2, 3, 8, 39, 120, 998, 3998):
        for offset in (-page, 1 - page, -1, -3, 1, 2, 5, 90, 500):
            n = page + 1 + offset
            if 0 < n < 4000:
                number(prog, rep, 'offset', page, offset, 'roman', plain_roman(n))
            number(prog, rep, 'offset', page, offset, 'arabic', str(n))


def direct(prog, rep):
    f = prog.func('to_roman')
    for n in range(1, 4000):
        eng = Engine(prog)
        judge(rep, 'numeral', f, eng.analyse(f, args={f.args[0]: C(n)}), eng, plain_roman(n), 'number %d' % n)
