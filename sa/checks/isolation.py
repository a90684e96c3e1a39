"""The whole-program points-to run shared by C14 and C15."""
import ast
from ..points import Points
from ..program import AnchorMissing

LABEL = 'data given by the caller'
API = {
    'PDF': ['__init__', 'setup_page', 'add_page', 'add_running_section', 'add_font', 'create_image',
            'add_image', 'image', 'text', 'table', 'content', 'output'],
    'PDFDocument': ['__init__', 'run', 'output'],
    'PDFText': ['__init__', 'setup', 'run', 'get_state', 'set_state'],
    'PDFTable': ['__init__', 'setup', 'run', 'get_state', 'set_state'],
    'PDFContent': ['__init__', 'setup', 'run', 'get_state', 'set_state'],
}
BY_SITE = ('PDFObject', 'PDFColor', 'PDFTextLinePart', 'PDFTextLine', 'PDFState')


def solve(prog, rep, k, cls=Points):
    p = cls(prog, k)
    p.share_label = None
    p.by_site = {c for c in BY_SITE if c in prog.classes}
    ents = [prog.func('build_pdf')]
    for c, ms in API.items():
        for m in ms:
            try:
                ents.append(prog.func(c + '.' + m))
            except AnchorMissing:
                if c == 'PDFText':     # may be inherited
                    continue
                raise
    seen = set()
    n = 0
    for fi in ents:
        if fi.qual not in seen:
            seen.add(fi.qual)
            n += 1
            p.entry(fi, LABEL)
    p.solve()
    rep.count('public entry points analysed', n)
    rep.count('function contexts analysed', len(p.args))
    rep.count('call edges', len(p.calls))
    rep.count('in-place changes resolved', len(p.changes))
    rep.count('abstract objects', len(p.heap))
    rep.functions |= set(p.fis)
    for q, e in p.errors.items():
        rep.unk('coverage', q, 'not analysed: ' + e[:80])
    return p
