"""C07: the dictionary of a stream describes the bytes that follow it.  The serialiser is evaluated abstractly on
every combination of filter / skip marker / bytes or parts, and the template it produces is compared with the
dictionary in it; then every stream dictionary built by the library is looked at."""
from .common import *
from ..access import callers

TECHNIQUE = ('value-flow evaluation of the serialiser on the scenarios (filter known, unknown, absent) x (already encoded or '
             'not) x (bytes, parts): declared length, payload, filter and restored keys are compared as terms; every stream '
             'dictionary constructed in the package is checked for the pairing of filter and data')

# filters a reader must be able to undo; how their encoders appear in a program
ENCODERS = {b'/FlateDecode': ('zlib.compress',), b'/ASCIIHexDecode': ('binascii.hexlify', 'hex'), b'/ASCII85Decode': ('base64.a85encode',)}
D = ('dict', 900001)
PARTS = ('dict', 900002)
S, S1, S2, F = ('sym', '$content'), ('sym', '$part1'), ('sym', '$part2'), ('sym', '$filter')
KNOWN = [b'/FlateDecode', b'/ASCIIHexDecode', b'/ASCII85Decode', b'/LZWDecode', b'/RunLengthDecode', b'/CCITTFaxDecode',
         b'/JBIG2Decode', b'/DCTDecode', b'/JPXDecode', b'/Crypt']


def run(prog, rep):
    rep.rule('length', 'Length is the number of bytes between the keywords')
    rep.rule('payload', 'the bytes written are the content, encoded with the declared filter unless marked as encoded')
    rep.rule('unsupported', 'a filter the library cannot apply is an error, never written raw')
    rep.rule('restore', 'the dictionary can be written again: content, filter and marker are as before')
    rep.rule('built', 'stream dictionaries built by the library pair the filter with data in the right form')
    rep.section('payload', serialise, prog, rep)
    rep.section('built', built, prog, rep)


def scenario(stream, filt, skip, stale):
    lay = [('kv', C('Type'), C(b'/T'))]
    if stale:
        lay.append(('kv', C('Length'), ('sym', '$oldlength')))
    if filt is not None:
        lay.append(('kv', C('Filter'), filt))
    if skip is not None:
        lay.append(('kv', C('__skip_filter__'), C(skip)))
    lay.append(('kv', C('__stream__'), stream))
    return tuple(lay)


def serialise(prog, rep):
    fi = prog.func('parse_obj')
    name = fi.args[0]
    unknown_ok = 0
    for sname, stream in (('bytes', S), ('parts', PARTS)):
        for filt in [None, F] + [C(k) for k in KNOWN]:
            for skip in (None, True, False):
                for stale in (False, True):
                    if is_c(filt or S) and (stale or skip is False) and filt != C(b'/FlateDecode'):
                        continue
                    st = State()
                    lay = scenario(stream, filt, skip, stale)
                    st.heap[('D', D[1])] = lay
                    st.heap[('D', PARTS[1])] = (('kv', C(0), S1), ('kv', C(1), S2))
                    eng = Engine(prog, pure_opaque={fi.qual})
                    for t in (S, S1, S2, F):
                        eng.kinds[t] = 'b'
                    for t in (S, S1, S2, F):
                        st.facts[('inst', t, 'bytes')] = True
                    parts = eng.analyse(fi, args={name: D}, state=st)
                    rep.functions |= eng.analysed
                    for p in parts:
                        judge(prog, rep, fi, eng, p, sname, filt, skip, lay)
    rep.count('scenarios', 2 * (2 * 6 + len(KNOWN)))


def plain(sname):
    return (('hole', S),) if sname == 'bytes' else (('hole', S1), ('hole', S2))


def norm(ps):
    out = []
    for p in ps:
        if p[0] == 'lit':
            if p[1]:
                out.append(('lit', p[1]))
        elif p[0] == 'hole':
            out.append(('hole', p[1]))
        else:
            out.append(p)
    return tuple(out)


def judge(prog, rep, fi, eng, p, sname, filt, skip, lay):
    label = '%s, filter %s, %s' % (sname, show(filt) if filt else 'absent', 'encoded already' if skip else 'to encode')
    where = fi.loc()
    fnow = filt
    if filt == F:
        for k in KNOWN:
            for a in (('eq', F, C(k)), ('eq', C(k), F)):
                if p.facts.get(a) is True:
                    fnow = C(k)
    encode = filt is not None and not skip
    if p.raised:
        if encode and fnow != C(b'/FlateDecode'):
            rep.ok('unsupported', where)
        elif not any(k[0] == 'inst' for k in p.facts if k[1] not in (S, S1, S2, F)):
            rep.unk('payload', where, 'this stream is refused: ' + label)
        return
    if p.ret is None or p.ret[0] != 'cat':
        rep.unk('payload', where, 'result not understood: ' + label)
        return
    ps = norm(cat_parts(p.ret))
    i = next((i for i, x in enumerate(ps) if x[0] == 'lit' and 'stream' in x[1].split('>>')[-1] and 'endstream' not in x[1]), None)
    empty = None
    if i is None:
        i = next((i for i, x in enumerate(ps) if x[0] == 'lit' and 'stream' in x[1] and 'endstream' in x[1]), None)
        empty = i
    if i is None:
        rep.unk('payload', where, 'no stream keyword found: ' + label)
        return
    if empty is not None:
        rep.bad('payload', where, 'the content is not written (%s)' % label)
        return
    head, body = ps[:i + 1], list(ps[i + 1:])
    if head[-1][1].split('stream')[-1] not in ('\n', '\r\n'):
        rest = head[-1][1].split('stream', 1)[-1]
        rep.bad('length', where, 'the stream keyword is not followed by exactly one end of line (%r)' % rest)
        return
    if not body or body[-1][0] != 'lit' or 'endstream' not in body[-1][1]:
        rep.bad('length', where, 'no endstream keyword after the data (%s)' % label)
        return
    tail = body.pop()[1].split('endstream')[0]
    if tail not in ('\n', '\r\n', '\r', ''):
        body.append(('lit', tail))
    if tail == '':
        rep.bad('length', where, 'the data is not separated from the endstream keyword')
    # payload
    want = plain(sname)
    data = tuple(body)
    if encode:
        if fnow == F or (is_c(fnow) and fnow[2] not in ENCODERS):
            if data == want:
                rep.bad('unsupported', where, 'data is written as it is although the dictionary declares a filter (%s)' % (
                    'a filter none of the known ones' if fnow == F else show(fnow)))
            elif fnow == F:
                ok = [x for x in p.facts if x[0] in ('eq', 'in')]
                if len(data) == 1 and encoder_of(data[0][1]):
                    rep.bad('unsupported', where, 'data is encoded with %s whatever filter is declared' % encoder_of(data[0][1]))
                else:
                    rep.unk('unsupported', where, 'unknown filter handled in a way not understood')
            else:
                e = len(data) == 1 and encoder_of(data[0][1])
                if e:
                    rep.bad('payload', where, '%s is declared but the data is encoded with %s' % (show(fnow), e))
                else:
                    rep.unk('payload', where, 'encoder for %s not known' % show(fnow))
        else:
            e = encoder_of(data[0][1]) if len(data) == 1 and data[0][0] == 'hole' else None
            if e is None:
                if data == want:
                    rep.bad('payload', where, 'the data is not encoded although %s is declared' % show(fnow))
                else:
                    rep.unk('payload', where, 'encoded data not understood: ' + ' '.join(show(x[1]) for x in data))
            elif e not in ENCODERS[fnow[2]]:
                rep.bad('payload', where, '%s is declared but the data is encoded with %s' % (show(fnow), e))
            else:
                src = encoder_arg(data[0][1])
                same = norm(cat_parts(src) if src[0] == 'cat' else (('hole', src, ''),)) == want
                if same:
                    rep.ok('payload', where)
                elif encoder_of(src):
                    rep.bad('payload', where, 'the data is encoded twice')
                elif set(x[1] for x in want) - set(subterms(src)):
                    rep.bad('payload', where, 'part of the content is not encoded: %s' % show(src))
                else:
                    rep.unk('payload', where, 'encoded data is %s' % show(src))
    else:
        if data == want:
            rep.ok('payload', where)
        elif len(data) == 1 and data[0][0] == 'hole' and encoder_of(data[0][1]):
            rep.bad('payload', where, 'data %s is encoded again with %s' % (
                'already encoded' if skip else 'with no filter declared', encoder_of(data[0][1])))
        elif data == tuple(reversed(want)) or (len(data) < len(want) and set(data) <= set(want)):
            rep.bad('payload', where, 'the parts of the content are not all written in their order')
        elif all(x in data for x in want) and len(data) > len(want):
            lits = [x for x in data if x not in want]
            if all(x[0] == 'lit' for x in lits) and sname == 'parts' and all(x[1].isspace() for x in lits):
                rep.ok('payload', where)
            else:
                rep.unk('payload', where, 'extra data around the content: %s' % (lits,))
        else:
            rep.unk('payload', where, 'data not understood (%s): %s' % (label, [show(x[1]) if x[0] == 'hole' else x for x in data]))
    # length
    n = C(0)
    for x in data:
        n = p_add(n, C(len(x[1])) if x[0] == 'lit' else eng.len_of(x[1], p.state) if x[0] == 'hole' else ('sym', '$?'))
    declared = lengths(prog, head, eng)
    if declared is None:
        rep.unk('length', where, 'no Length entry recognised (%s)' % label)
    elif declared == 'none':
        rep.bad('length', where, 'the dictionary written has no Length entry (%s)' % label)
    else:
        for v in declared:
            d = differ(v, n)
            if d is True:
                rep.ok('length', where)
            else:
                rep.bad('length', where, 'Length is %s but the data has %s bytes (%s)' % (show(v), show(n), label))
        if len(declared) > 1:
            rep.bad('length', where, 'Length is written more than once')
    # filter entry as declared
    txt = ''.join(x[1] if x[0] == 'lit' else '\0' for x in head)
    if filt is not None and '/Filter' not in txt:
        rep.bad('payload', where, 'the Filter entry is not written (%s)' % label)
    if filt is None and '/Filter' in txt:
        rep.bad('payload', where, 'a Filter entry is written for data that has none (%s)' % label)
    if '__s' in txt:
        rep.bad('payload', where, 'an internal entry is written into the dictionary (%s)' % label)
    # restored
    want = {l[1]: l[2] for l in lay}
    for k in (C('__stream__'), C('Filter'), C('__skip_filter__'), C('Type')):
        v = eng.dict_get(D, k, ('sym', '$none'), p.state)
        w = want.get(k, ('sym', '$none'))
        if v == w:
            rep.ok('restore', where)
        elif k == C('__skip_filter__') and w in (('sym', '$none'), C(False)) and v in (('sym', '$none'), C(False), C(None)):
            rep.ok('restore', where)
        elif k == C('__skip_filter__') and is_c(v) and bool(v[2]) == bool(skip):
            rep.ok('restore', where)
        elif k == C('__stream__') and v is not None and enc_same(v, sname, skip, filt, eng, p):
            rep.ok('restore', where)
        elif v is not None and known(v):
            rep.bad('restore', where, 'after writing, %s is %s instead of %s (%s)' % (
                show(k), 'missing' if v == ('sym', '$none') else show(v), 'absent' if w == ('sym', '$none') else show(w), label))
        else:
            rep.unk('restore', where, 'entry %s after writing: %s' % (show(k), show(v) if v else v))


def known(v):
    return not any(x[0] in ('call', 'unk', 'get') for x in subterms(v))


def enc_same(v, sname, skip, filt, eng, p):
    """joined parts kept instead of the dictionary of parts lose nothing when written again, but the parts can no longer be updated"""
    return False


def encoder_of(t):
    if t[0] in ('fn', 'ext', 'call') and isinstance(t[1], str):
        for names in ENCODERS.values():
            if t[1] in names:
                return t[1]
    return None


def encoder_arg(t):
    a = t[2]
    a = a[0] if a and isinstance(a, tuple) else a
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], tuple) and not a[0] in ('sym', 'c', 'dict'):
        a = a[1]
    return a


def lengths(prog, head, eng):
    """values written for the Length entry: the hole right after the literal '/Length'"""
    out, seen = [], False
    for i, x in enumerate(head):
        if x[0] == 'star':
            seen = True
        if x[0] == 'lit':
            t = x[1]
            k = t.find('/Length')
            while k >= 0:
                rest = t[k + 7:]
                if rest[:1].isalnum():
                    k = t.find('/Length', k + 7)
                    continue
                if rest.strip() == '':
                    if i + 1 < len(head) and head[i + 1][0] == 'hole':
                        v = unwrap(head[i + 1][1])
                        if v is None:
                            return None
                        out.append(v)
                    else:
                        return None
                elif rest.strip().split('/')[0].split('>')[0].strip().isdigit():
                    out.append(C(int(rest.strip().split('/')[0].split('>')[0])))
                else:
                    return None
                k = t.find('/Length', k + 7)
    if not out:
        return None if seen else 'none'
    return out


def unwrap(t):
    if t[0] == 'call' and len(t[3]) == 1:
        return t[3][0][1]
    if t[0] == 'call' and not t[3] and len(t[2]) == 1:
        return t[2][0]
    if t[0] == 'fn' and t[1] in ('str', 'encode', 'bytes') and t[2]:
        return unwrap(t[2][0]) or t[2][0]
    if t[0] == 'cat':
        ps = cat_parts(t)
        if len(ps) == 1 and ps[0][0] == 'hole':
            return ps[0][1]
        return None
    return t


# ---------------------------------------------------------------- streams built by the library
def built(prog, rep):
    import ast
    fns = [f for f in prog.all_functions() if f.kind != 'class' and any(
        isinstance(n, ast.Constant) and n.value == '__stream__' for n in ast.walk(f.node)) and f.qual not in ('parse_obj', 'parse_stream')]
    n = 0
    for fi in fns:
        eng = Engine(prog)
        try:
            parts = eng.analyse(fi)
        except TooComplex as e:
            rep.unk('built', fi.loc(), str(e))
            continue
        rep.functions |= eng.analysed
        seen = set()
        for p in parts:
            if p.raised:
                continue
            for k, lay in list(p.heap.items()):
                if k[0] != 'D' or (k, lay) in seen:
                    continue
                seen.add((k, lay))
                d = ('dict', k[1])
                s = eng.dict_get(d, C('__stream__'), ('sym', '$none'), p.state)
                if s == ('sym', '$none') or s is None:
                    continue
                f = eng.dict_get(d, C('Filter'), ('sym', '$none'), p.state)
                skip = eng.dict_get(d, C('__skip_filter__'), C(False), p.state)
                n += 1
                where = fi.loc()
                one(rep, where, s, f, skip, eng, d, p)
    rep.count('stream dictionaries built', n)


def one(rep, where, s, f, skip, eng, d, p):
    if f is None or skip is None or not (is_c(f) or f == ('sym', '$none')) or not is_c(skip):
        rep.unk('built', where, 'filter or marker not constant')
        return
    enc = encoder_of(s)
    if f == ('sym', '$none'):
        rep.check(enc is None, 'built', where, 'encoded data is stored with no filter declared')
    elif skip[2]:
        if f[2] in ENCODERS:
            if enc:
                rep.check(enc in ENCODERS[f[2]], 'built', where, 'data encoded with %s is declared as %s' % (enc, show(f)))
            else:
                rep.bad('built', where, 'data that is not encoded is declared as %s and marked as encoded' % show(f)) if \
                    raw(s) else rep.unk('built', where, 'whether the data is encoded is not known')
        else:
            rep.check(enc is None or None, 'built', where, 'data declared as %s' % show(f))
    else:
        if f[2] in ENCODERS:
            rep.check(enc is None, 'built', where, 'data already encoded with %s is encoded again when written' % enc)
        else:
            rep.bad('built', where, 'a stream is declared as %s, which the serialiser cannot apply, and is not marked as encoded' % show(f))
    l1 = eng.dict_get(d, C('Length1'), ('sym', '$none'), p.state)
    if l1 not in (None, ('sym', '$none')) and not skip[2]:
        dd = differ(l1, eng.len_of(s, p.state))
        if dd is True:
            rep.ok('built', where)
        elif is_known(l1):
            rep.bad('built', where, 'Length1 is %s but the data decodes to %s bytes' % (show(l1), show(eng.len_of(s, p.state))))


def raw(s):
    return s[0] in ('cat', 'c') or (s[0] == 'dict')
