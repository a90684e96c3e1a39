"""C01: cross-reference table.  Affine position analysis of PDFBase.output: a ghost position counts the
bytes written; the offset variable printed in each cross-reference record must equal the ghost position of
the object header by induction over the generic iteration of the writing loop."""
import re
from .common import *

TECHNIQUE = ('value-flow analysis with a ghost byte position: affine loop invariant over lengths of written '
             'templates (PDFBase.output), template matching of xref records and trailer')
REC = re.compile(r'^ 00000 n( \n| \r|\r\n)$')


def run(prog, rep):
    rep.rule('offset', 'offset printed in record i = bytes written before header i (induction over the writing loop)')
    rep.rule('record', 'each cross-reference record is 10 digits, blank, 00000 n and a 2-byte line end (20 bytes)')
    rep.rule('order', 'iteration i writes header i+1 and the i-th object of the object list, one record each, no exit before the end')
    rep.rule('table', 'table header 0 N, free entry 0, N and Size = number of objects + 1')
    rep.rule('startxref', 'startxref value = byte offset of the xref keyword')
    rep.rule('header', 'the file starts with the %PDF- header and ends with %%EOF')
    rep.assumptions.append('count = number of objects + 1 is decided by C02')
    rep.assumptions.append('parse_obj returns bytes and does not add objects or write to the buffer')
    rep.section('output', output, prog, rep)


def reordered(t, content):
    """a selection or reordering of the object list"""
    if t[0] == 'reversed' or (t[0] == 'fn' and t[1] in ('reversed', 'sorted', 'set')):
        return contains(t, content)
    if t[0] == 'fn' and t[1] == 'slice' and t[2][0] == content:
        return any(x != NONE for x in t[2][1:]) and t[2][1:] != (C(0), NONE, NONE)
    return False


def over_content(L, content):
    sp = L.space
    while sp is not None and sp[0] == 'enumerate':
        sp = sp[1]
    return sp == content


def is_parse(h):
    return h[0] == 'call' and h[1].split('.')[-1] == 'parse_obj'


def parse_arg(h):
    if h[2]:
        return h[2][0]
    return h[3][0][1] if h[3] else None


def output(prog, rep):
    fi = prog.func('PDFBase.output')
    if len(fi.args) < 2:
        raise AnchorMissing('buffer parameter of PDFBase.output')
    eng = Engine(prog, opaque={'parse_obj', 'PDFBase._trailer_id'})
    parts = eng.analyse(fi)
    rep.functions |= eng.analysed
    buf, self_ = ('sym', fi.args[1]), ('sym', fi.args[0])
    n = 0
    for p in parts:
        if p.raised:
            continue
        n += 1
        one(prog, rep, eng, fi, p, buf, self_)
    rep.count('partitions of PDFBase.output', n)


def one(prog, rep, eng, fi, p, buf, self_):
    where = fi.loc()
    content = ('attr', self_, 'content', 0)

    def norm(t):
        return subst(t, lambda x: p_add(fn('len', content), C(1))
                     if isinstance(x, tuple) and len(x) == 4 and x[0] == 'attr' and x[1] == self_ and x[2] == 'count' else None)
    pre, tail, loop = [], [], None
    for ev in p.trace:
        if ev.kind == 'mut' and ev.a[0] == buf:
            w = writes_to(ev, buf)
            if w is None:
                if ev.a[1] in ('flush',):
                    continue
                return rep.unk('offset', ev.loc, 'buffer used with %s' % ev.a[1])
            (pre if loop is None else tail).extend(cat_parts(w))
        elif ev.kind in ('call', 'ext', 'mcall', 'callv') and contains(ev.a, buf):
            return rep.unk('offset', ev.loc, 'buffer handed to another function')
        elif ev.kind == 'loop':
            L = ev.a[0]
            inner = [e for e, st in all_events((ev,)) if writes_to(e, buf) is not None]
            if inner:
                if loop is not None:
                    return rep.unk('offset', ev.loc, 'several writing loops')
                loop = L
    if loop is None:
        return rep.unk('offset', where, 'no loop writes objects')
    L = loop
    P0 = C(0)
    for q in pre:
        P0 = p_add(P0, length(('cat', 'b', (q,))))
    hdr = lit_text(pre)
    rep.check(hdr.startswith('%PDF-'), 'header', where, 'output starts with %r instead of the %%PDF- header' % hdr[:12])

    # ------------------------------------------------ what one iteration writes
    backs = L.back()
    W = []
    for s in backs:
        ws = []
        for ev in own_trace(L, s):
            if ev.kind == 'loop':
                if any(writes_to(e, buf) is not None for e, _ in all_events((ev,))):
                    return rep.unk('offset', ev.loc, 'nested writing loop')
            w = writes_to(ev, buf)
            if w is not None:
                ws.extend(cat_parts(w))
        W.append(mk_cat('b', ws) if ws else C(b''))
    lw = 'loop at %s:%s in %s' % (fi.module.relpath, L.node.lineno, L.fi.qual)
    for s, g in L.parts:
        if g == 'break' or (isinstance(g, tuple) and g[0] == 'ret'):
            if L.kind == 'for':
                rep.bad('order', L.fi.loc(L.node), 'the writing loop can stop before the last object')
            else:
                rep.unk('order', lw, 'early exit of a while loop')
    heads = []
    for s, w in zip(backs, W):
        ps = list(cat_parts(w))
        off, pos = C(0), None
        for i, q in enumerate(ps):
            if q[0] == 'lit':
                m = re.match(r'^(.*?)(\d+)? ?\d+ obj', q[1], re.S)
            if q[0] == 'hole' and i + 1 < len(ps) and ps[i + 1][0] == 'lit' and ps[i + 1][1].startswith(' 0 obj'):
                pos = i
                break
            off = p_add(off, length(('cat', 'b', (q,))))
        if pos is None:
            if not ps and over_content(L, content):
                rep.bad('order', L.fi.loc(L.node), 'an iteration writes no object')
            else:
                rep.unk('order', lw, 'no "N 0 obj" header recognised')
            return
        N = ps[pos][1]
        if N[0] == 'fn' and N[1] == 'str':
            N = N[2][0]
        objs = [q[1] for q in ps[pos + 1:] if q[0] == 'hole']
        objs = [h for h in objs if is_parse(h)]
        if len(objs) != 1:
            rep.unk('order', lw, 'object value not recognised')
        else:
            o = parse_arg(objs[0])
            if o is not None and o[0] == 'attr' and o[2] == 'value':
                o = o[1]
            if o is not None and o[0] == 'idx' and o[1] == content:
                if N[0] == 'attr' and N[1] == o and N[2] == 'id':
                    rep.ok('order', lw)
                    idx = o[2]
                else:
                    idx = o[2]
                    rep.check(differ(N, p_add(idx, C(1))), 'order', L.fi.loc(L.node),
                              'header number %s for object number %s of the list' % (show(N), show(idx)))
                # the whole list, ascending by one
                i0 = subst(idx, lambda t: C(0) if t == L.ind else None)
                st = poly_const(p_sub(subst(idx, lambda t: p_add(L.ind, C(1)) if t == L.ind else None), idx))
                if contains(idx, ('sym', '?')) or st is None or poly_const(i0) is None:
                    rep.unk('order', lw, 'index %s' % show(idx))
                else:
                    rep.check(st == 1 and poly_const(i0) == 0, 'order', L.fi.loc(L.node),
                              'objects are written in the order %s, not from the first in steps of one' % show(idx))
                    if L.count is not None and L.count != ('unk',):
                        d = differ(norm(L.count), fn('len', content))
                        rep.check(d, 'order', L.fi.loc(L.node), 'the loop writes %s objects of %s' % (show(L.count), show(fn('len', content))))
            elif o is not None and o[0] == 'idx' and reordered(o[1], content):
                rep.bad('order', L.fi.loc(L.node), 'the objects written are those of %s, not the object list' % show(o[1]))
            else:
                rep.unk('order', lw, 'object written: %s' % (show(o) if o else '?'))
        heads.append(off)
        after = lit_text(ps[pos + 1:])
        rep.check(after.rstrip().endswith('endobj') and bool(re.match(r'^ 0 obj\s', after)) and after[-1:].isspace()
                  if '\0' in after else None,
                  'order', L.fi.loc(L.node), 'object is not enclosed by "N 0 obj" and "endobj" lines')
    # ------------------------------------------------ footer
    txt = lit_text(tail)
    joined = []
    for q in tail:
        if joined and q[0] == 'lit' and joined[-1][0] == 'lit':
            joined[-1] = ('lit', joined[-1][1] + q[1])
        else:
            joined.append(q)
    tail = joined
    k = next((i for i, q in enumerate(tail) if q[0] == 'lit' and re.search(r'(^|\n)xref\s', q[1])), None)
    if k is None:
        return rep.unk('table', where, 'no xref keyword recognised')
    m = re.search(r'(^|\n)xref\s+0 ', tail[k][1])
    xoff = C(0)
    for q in tail[:k]:
        xoff = p_add(xoff, length(('cat', 'b', (q,))))
    xpos = tail[k][1].index('xref')
    xoff = p_add(xoff, C(xpos))
    # 0 N
    if m and tail[k][1][m.end():] == '' and k + 1 < len(tail) and tail[k + 1][0] == 'hole':
        N = tail[k + 1][1]
        if N[0] == 'fn' and N[1] == 'str':
            N = N[2][0]
        rep.check(differ(norm(N), p_add(fn('len', content), C(1))), 'table', where,
                  'table size is %s instead of the number of objects plus one' % show(N))
        free = tail[k + 2][1] if k + 2 < len(tail) and tail[k + 2][0] == 'lit' else ''
        rep.check(bool(re.match(r'^(\n|\r\n| \n)0000000000 65535 f( \n| \r|\r\n)', free)) if free else None,
                  'table', where, 'free entry is %r' % free[:24])
        rest = re.sub(r'^(\n|\r\n| \n)0000000000 65535 f( \n| \r|\r\n)', '', free)
        rep.check(rest == '' or rest.startswith('trailer'), 'table', where, 'text %r between the free entry and the records' % rest[:30])
    else:
        rep.unk('table', where, 'table header not recognised')
    stars = [q for q in tail if q[0] == 'star']
    offvar = None
    if len(stars) != 1 or len(stars[0]) > 3:
        rep.unk('record', where, '%d repeated parts in the footer' % len(stars))
    else:
        lid, alts = stars[0][1], stars[0][2]
        if lid != L.id:
            alts = resolve_list(eng, p, L, lid, alts)
        if alts is None:
            rep.unk('record', where, 'records are not built in the writing loop')
        elif len(alts) != len(backs):
            rep.unk('record', where, 'alternatives do not match')
        else:
            for s, w, off, alt in zip(backs, W, heads, alts):
                X = record(rep, L, alt)
                if X is None:
                    continue
                v = offset(rep, eng, L, s, w, off, X, P0, lw)
                offvar = v or offvar
    # startxref
    t2 = next((i for i, q in enumerate(tail) if q[0] == 'lit' and re.search(r'startxref\s+$', q[1])), None)
    if t2 is None or t2 + 1 >= len(tail) or tail[t2 + 1][0] != 'hole':
        rep.unk('startxref', where, 'startxref not recognised')
    else:
        V = tail[t2 + 1][1]
        if V[0] == 'fn' and V[1] == 'str':
            V = V[2][0]
        if offvar is None:
            rep.unk('startxref', where, 'offset variable unknown')
        else:
            loc, c = offvar      # v = G + c at every iteration head, hence after the loop
            want = p_add(p_sub(('out', L.id, loc), c), xoff)
            d = p_sub(V, want)
            dd = poly_const(d)
            rep.check(dd == 0 if dd is not None else (None if not vocab(d, [want, V]) else False), 'startxref', where,
                      'startxref is %s, the keyword is at %s' % (show(V), show(want)))
        end = tail[t2 + 2][1] if t2 + 2 < len(tail) and tail[t2 + 2][0] == 'lit' else ''
        rep.check(bool(re.match(r'^[\r\n]+%%EOF\s*$', end)), 'header', where, 'file ends with %r' % end)
    # trailer
    tr = [i for i, q in enumerate(tail) if q[0] == 'hole' and is_parse(q[1])]
    if len(tr) != 1:
        rep.unk('table', where, 'trailer not recognised')
    else:
        T = parse_arg(tail[tr[0]][1])
        before = tail[tr[0] - 1][1] if tr[0] and tail[tr[0] - 1][0] == 'lit' else ''
        rep.check(bool(re.search(r'trailer\s+$', before)) if before else None, 'table', where, 'no trailer keyword before the trailer dictionary')
        size = None
        unknown = False
        if T[0] == 'dict':
            size = eng.dict_get(T, C('Size'), None, p.state)
        else:
            for ev in p.trace:
                if ev.kind == 'call' and ev.a[3] == tail[tr[0]][1]:
                    break
                if ev.kind == 'setitem' and ev.a[0] == T and ev.a[1] == C('Size'):
                    size = ev.a[2]
                elif ev.kind == 'mut' and ev.a[0] == T:
                    if ev.a[1] == 'update':
                        for a in ev.a[2]:
                            if a[0] == 'dict':
                                size = eng.dict_get(a, C('Size'), None, p.state) or size
                            else:
                                unknown = True
                    elif ev.a[1] == 'setdefault' and ev.a[2] and ev.a[2][0] == C('Size'):
                        # the trailer outlives the call: a second output finds the value of the first
                        size = ('get', T, C('Size'), ev.a[2][1] if len(ev.a[2]) > 1 else NONE)
                    elif ev.a[1] != 'setdefault' or not ev.a[2] or not is_c(ev.a[2][0]):
                        unknown = True
        kept = size is not None and is_term(size) and size[0] in ('get', 'idx') and size[1] == T and T[0] != 'dict'
        if size is None and not unknown and T[0] == 'attr' and p.facts.get(('has', T, C('Size'))):
            kept = True
        if kept:
            rep.bad('table', where, 'the trailer keeps the Size of an earlier output, when there were fewer objects')
        elif size is None or not is_term(size) or size[0] in ('unk', 'idx'):
            rep.check(None if unknown or size is not None else False, 'table', where, 'the trailer is written without Size')
        else:
            rep.check(differ(norm(size), p_add(fn('len', content), C(1))), 'table', where,
                      'trailer Size is %s instead of the number of objects plus one' % show(size))


def record(rep, L, alt):
    """offset term printed by one record, or None"""
    loc = L.fi.loc(L.node)
    ps = list(alt)
    if not ps:
        rep.bad('record', loc, 'an object is written without a cross-reference record')
        return None
    if ps[0][0] != 'hole' or len(ps) != 2 or ps[1][0] != 'lit':
        if all(q[0] == 'hole' or q[0] == 'lit' for q in ps) and len(ps) == 2:
            rep.unk('record', loc, 'record %s' % show(('cat', 's', tuple(ps))))
        else:
            rep.unk('record', loc, 'record not recognised')
        return None
    h, spec = ps[0][1], ps[0][2]
    X = None
    if h[0] == 'fn' and h[1] in ('zfill', 'rjust'):
        width = h[2][1]
        fillok = h[1] == 'zfill' or (len(h[2]) > 2 and h[2][2] == C('0'))
        inner = h[2][0]
        q = cat_parts(inner)
        if len(q) == 1 and q[0][0] == 'hole' and q[0][2] in ('', 'd'):
            X = q[0][1]
            if X[0] == 'fn' and X[1] == 'str':
                X = X[2][0]
        rep.check(width == C(10) and fillok, 'record', loc, 'offsets are padded to %s characters' % show(width))
    elif spec:
        X = h
        rep.check(spec in ('010d', '010', '0>10', '0>10d', '010.0f') , 'record', loc, 'offsets are formatted with %r' % spec)
    else:
        rep.bad('record', loc, 'offsets are not padded to ten digits')
        X = h
        if X[0] == 'fn' and X[1] == 'str':
            X = X[2][0]
    rep.check(bool(REC.match(ps[1][1])), 'record', loc, 'record continues with %r' % ps[1][1])
    return X


def vocab(d, srcs):
    """the difference only mentions values also used in srcs (so it is a real difference)"""
    leaves = set()
    for s in srcs:
        for x in subterms(s):
            leaves.add(x)
    for m, c in to_poly(d).items():
        for a, e in m:
            if a in leaves:
                continue
            if a[0] == 'fn' and a[1] == 'len':
                inner = a[2][0]
                ls = [x for x in subterms(inner) if x[0] in ('call', 'idx', 'attr', 'sym', 'out', 'head', 'unk')]
                if ls and all(any(contains(s, x) for s in srcs) for x in ls):
                    continue
            return False
    return True


def offset(rep, eng, L, s, w, off, X, P0, lw):
    """prove X = G + off; returns (location, constant) with v = G + c"""
    loc0 = L.fi.loc(L.node)
    heads = [loc for loc, h in L.head.items() if h[0] == 'head' and contains(X, h)]
    if len(heads) != 1:
        # X might use the induction form (constant-size objects) - not expected
        rep.unk('offset', lw, 'offset %s' % show(X))
        return None
    loc = heads[0]
    h = L.head[loc]
    k = p_sub(X, h)
    if contains(k, h):
        rep.unk('offset', lw, 'offset %s' % show(X))
        return None
    c = p_sub(off, k)
    e = L.entry.get(loc)
    wl = C(0)
    for q in cat_parts(w):
        wl = p_add(wl, length(('cat', 'b', (q,))))
    d0 = p_sub(e, p_add(P0, c))
    good = True
    if poly_const(d0) == 0:
        rep.ok('offset', loc0 + ' (base case)')
    elif vocab(d0, [e, P0, c, wl]) :
        good = False
        rep.bad('offset', loc0, 'the first recorded offset is %s, the first object starts at %s' % (
            show(p_add(e, k)), show(p_add(P0, off))))
    else:
        good = False
        rep.unk('offset', loc0, 'entry value %s against %s' % (show(e), show(P0)))
    v2 = eng.get_loc(s, loc)
    d1 = p_sub(v2, p_add(h, wl))
    if poly_const(d1) == 0:
        rep.ok('offset', loc0 + ' (step)')
    elif vocab(d1, [v2, wl]):
        good = False
        rep.bad('offset', loc0, 'the position advances by %s while %s bytes are written' % (show(p_sub(v2, h)), show(wl)))
    else:
        good = False
        rep.unk('offset', loc0, 'step %s against %s' % (show(p_sub(v2, h)), show(wl)))
    return (loc, c)


def resolve_list(eng, p, L, lid, alts):
    """records built in a second loop over a list of offsets filled in the writing loop"""
    L2 = eng.loops.get(lid)
    if L2 is None or L2.space is None or len(alts) != 1:
        return None
    sp = L2.space
    if sp[0] == 'list':
        items = p.heap.get(('L', sp[1]), ())
        if len(items) == 1 and items[0][0] == 'star' and items[0][1] == L.id:
            segs = items[0][2]
            if all(len(x) == 1 for x in segs):
                elem = ('idx', sp, L2.ind)
                out = []
                for seg in segs:
                    out.append(cat_parts(subst(('cat', 's', tuple(alts[0])), lambda t: seg[0] if t == elem else None)))
                return out
    return None
