"""C03: serialisation of values.  Partial evaluation of parse_obj per dynamic type: the template returned for
each type is matched against the grammar of the PDF object it denotes; entries of containers are templates of
the generic iteration and must be separated."""
from .common import *
from ..engine import State

TECHNIQUE = ('value-flow analysis of parse_obj specialised to each dynamic type; the byte template returned is matched '
             'against the PDF grammar of that type (number formats, container entries, token separation)')
TYPES = ('PDFObject', 'PDFRef', 'dict', 'list', 'tuple', 'set', 'bytes', 'bool', 'float', 'int', 'str')
SUPERS = {'bool': ('int',), 'PDFRef': ('int',)}
DELIM = {'/', '(', '<', '['}


def run(prog, rep):
    rep.rule('dispatch', 'a value of each supported type is serialised by the branch of its own type')
    rep.rule('number', 'numbers are written as plain decimal digits without exponent and without losing digits')
    rep.rule('string', 'a string is written between ( and )')
    rep.rule('dict', 'a dictionary is << followed by /key value for every entry, then >>')
    rep.rule('list', 'a list is [ followed by every element in order, then ]')
    rep.rule('separate', 'a token is separated from the one before unless it starts with a delimiter')
    rep.assumptions.append('streams (dict with __stream__) are decided by C07, escaping of strings by C04')
    fi = prog.func('parse_obj')
    for ty in TYPES:
        rep.section(ty, one, prog, rep, fi, ty)


def state_for(x, ty, stream=None):
    st = State()
    for t in TYPES:
        st.facts[('inst', x, t)] = t == ty or t in SUPERS.get(ty, ())
    st.facts[('isnone', x)] = False
    if ty == 'dict':
        st.facts[('in', C('__stream__'), x)] = bool(stream)
    return st


def one(prog, rep, fi, ty):
    eng = Engine(prog, opaque={'parse_obj', 'parse_stream'})
    eng.nomerge = True
    eng.exact.add(('sym', fi.args[0]))
    x = ('sym', fi.args[0])
    if ty in ('str', 'bytes'):
        eng.kinds[x] = ty[0]
    parts = eng.analyse(fi, state=state_for(x, ty), types={fi.args[0]: ty})
    rep.functions |= eng.analysed
    rep.count('partitions of parse_obj', len(parts))
    for p in parts:
        if p.raised:
            if all(f[0] == 'inst' or f == ('isnone', x) or f[0] == 'in' for f in p.facts):
                rep.bad('dispatch', fi.loc(), 'a %s is rejected' % ty)
            else:
                rep.unk('dispatch', fi.loc(), '%s: raises when %s' % (ty, p.where()))
            continue
        if p.ret == NONE:
            rep.check(False if all(f[0] == 'inst' or f == ('isnone', x) or f[0] == 'in' for f in p.facts) else None,
                      'dispatch', fi.loc(), 'a %s is not serialised at all' % ty)
            continue
        globals()['t_' + ty](prog, rep, eng, fi, x, p)
    if ty == 'bool':
        seen = {(v, p.ret) for p in parts for f, v in p.facts.items() if f == ('truthy', x)}
        rep.count('boolean values', len(seen))


def where(fi, ty):
    return fi.loc() + ' (%s)' % ty


def t_bool(prog, rep, eng, fi, x, p):
    v = p.facts.get(('truthy', x))
    if not is_c(p.ret) or v is None:
        if is_c(p.ret) and p.ret[2] in (b'true', b'false'):
            rep.bad('dispatch', fi.loc(), 'every boolean is written as %r' % p.ret[2])
        elif p.ret[0] == 'cat' and any(q[0] == 'hole' and contains(q[1], x) and q[1] == x for q in p.ret[2]):
            rep.bad('dispatch', fi.loc(), 'a boolean is written as %s' % show(p.ret))
        else:
            rep.unk('dispatch', where(fi, 'bool'), show(p.ret))
        return
    rep.check(p.ret[2] == (b'true' if v else b'false'), 'dispatch', fi.loc(), '%s is written as %r' % (bool(v), p.ret[2]))


def t_PDFRef(prog, rep, eng, fi, x, p):
    ps = cat_parts(p.ret)
    if len(ps) == 2 and ps[0][0] == 'hole' and ps[1] == ('lit', ' 0 R'):
        h = ps[0][1]
        while h[0] == 'fn' and h[1] in ('str', 'int'):
            h = h[2][0]
        rep.check(True if h == x else None, 'dispatch', fi.loc(), 'a reference is written as %s' % show(p.ret))
    elif p.ret == ('attr', x, 'ref', 0):
        rep.ok('dispatch', where(fi, 'PDFRef'))
    elif len(ps) == 1 and ps[0][0] == 'hole' and ps[0][1] == x:
        rep.bad('dispatch', fi.loc(), 'a reference is written as a plain number')
    else:
        rep.unk('dispatch', where(fi, 'PDFRef'), show(p.ret))


def t_PDFObject(prog, rep, eng, fi, x, p):
    v = ('attr', x, 'value', 0)
    r = p.ret
    if r[0] == 'call' and r[1] in ('parse_obj', 'parse_stream', 'parse_dict'):
        a = r[2][0] if r[2] else r[3][0][1]
        rep.check(True if a == v else (False if a == x or a == ('attr', x, 'id', 0) else None), 'dispatch', fi.loc(),
                  'an object is written as the value of %s' % show(a))
    elif contains(r, ('attr', x, 'id', 0)):
        rep.bad('dispatch', fi.loc(), 'an object inside an object is written as %s' % show(r))
    else:
        rep.unk('dispatch', where(fi, 'PDFObject'), show(r))


def t_bytes(prog, rep, eng, fi, x, p):
    r = p.ret
    if r[0] == 'fn' and r[1] in ('bytes', 'copy'):
        r = r[2][0]
    rep.check(True if r == x else (False if r[0] == 'cat' or (r[0] == 'fn' and contains(r, x)) else None), 'dispatch', fi.loc(),
              'a byte string is written as %s' % show(p.ret))


def single_hole(t):
    ps = cat_parts(t)
    if len(ps) == 1 and ps[0][0] == 'hole':
        return ps[0][1], ps[0][2]
    return None


def t_int(prog, rep, eng, fi, x, p):
    number(rep, fi, x, p, 'int')


def t_float(prog, rep, eng, fi, x, p):
    number(rep, fi, x, p, 'float')


def number(rep, fi, x, p, ty):
    import re
    t = p.ret
    ops = []
    while True:
        h = single_hole(t)
        if h is None:
            if is_c(t) and isinstance(t[2], bytes):
                # a constant: only right when the partition fixes the value
                rep.check(None, 'number', fi.loc(), 'constant %r' % t[2])
                return
            lits = [q for q in cat_parts(t) if q[0] == 'lit']
            if lits and ty in ('int', 'float') and all(q[0] == 'lit' or q[1] == x for q in cat_parts(t)):
                rep.bad('number', fi.loc(), 'a number is written as %s' % show(t))
            else:
                rep.unk('number', where(fi, ty), show(t))
            return
        inner, spec = h
        if spec == '' and inner[0] == 'fn' and inner[1] in ('rstrip', 'strip', 'lstrip', 'str', 'repr', 'encode'):
            if inner[1] in ('rstrip', 'strip', 'lstrip'):
                ch = inner[2][1][2] if len(inner[2]) > 1 and is_c(inner[2][1]) else None
                if len(inner[2]) > 1 and ch is None:
                    rep.unk('number', where(fi, ty), show(t))
                    return
                ops.append((inner[1], ch))
            t = inner[2][0]
            if t == x or t[0] not in ('cat', 'fn', 'c'):
                inner, spec = t, ''
                break
            if t[0] == 'fn' and t[1] in ('round', 'int', 'abs'):
                inner, spec = t, ''
                break
            continue
        break
    ops.reverse()
    v = strip_round(inner)
    as_int = False
    if inner[0] == 'fn' and inner[1] == 'int':
        v = inner[2][0]
        as_int = True
    if v != x:
        rep.unk('number', where(fi, ty), 'number %s' % show(inner))
        return
    if ty == 'int':
        if spec in ('', 'd') and not any(c and ('0' in c) for o, c in ops):
            rep.ok('number', where(fi, ty))
        elif re.match(r'^,|_|^[eEgGxXob%c]$', spec):
            rep.bad('number', fi.loc(), 'an integer is formatted with %r' % spec)
        else:
            rep.unk('number', where(fi, ty), 'spec %r' % spec)
        return
    # float
    if as_int:
        if spec in ('', 'd'):
            whole = [f for f, b in p.facts.items() if b and contains(f, x) and f[0] != 'inst']
            rep.check(True if whole else False, 'number', fi.loc(), 'a float is truncated to an integer')
            return
    if inner[0] == 'fn' and inner[1] == 'round' and spec == '':
        rep.bad('number', fi.loc(), 'a float is written with %s, which uses an exponent for small and large values' % show(p.ret))
        return
    m = re.match(r'^\.(\d+)f$', spec) or re.match(r'^(f)$', spec)
    if not m:
        if spec == '' or spec[-1] in 'eEgGn%':
            rep.bad('number', fi.loc(), 'a float is formatted with %r, which can produce an exponent' % (spec or 'str'))
        else:
            rep.unk('number', where(fi, ty), 'spec %r' % spec)
        return
    prec = 6 if m.group(1) == 'f' else int(m.group(1))
    if prec < 4:
        rep.bad('number', fi.loc(), 'a float is cut to %d decimals' % prec)
        return
    stage = 'digits'          # D+.D{prec}
    for o, c in ops:
        if c is None or not (set(c) & set('0.-')):
            continue
        if o == 'rstrip' and set(c) == {'0'}:
            stage = 'trimmed' if stage in ('digits', 'trimmed') else 'broken'
        elif o == 'rstrip' and set(c) == {'.'}:
            stage = 'clean' if stage in ('trimmed', 'digits', 'clean') else 'broken'
        else:
            stage = 'broken'
            break
    # digits rstrip('.') leaves digits unchanged; a later rstrip('0') is fine then
    seq = [(o, c) for o, c in ops if c and (set(c) & set('0.-'))]
    ok = True
    zero_after_dot = False
    dotted = True
    for o, c in seq:
        if o != 'rstrip' or set(c) >= {'0', '.'} or '-' in c or o == 'lstrip':
            ok = False
        elif set(c) == {'.'} and zero_after_dot:
            dotted = False
        elif set(c) == {'0'}:
            if not dotted:
                ok = False
            zero_after_dot = True
    rep.check(ok, 'number', fi.loc(), 'trimming %s removes significant digits of whole numbers or leaves no digits' % (
        ', '.join('%s(%r)' % s for s in seq)))


def t_str(prog, rep, eng, fi, x, p):
    ps = cat_parts(p.ret)
    if not ps or ps[0][0] != 'lit' and ps[0] != ('hole', x, ''):
        return rep.unk('string', where(fi, 'str'), show(p.ret))
    ok = ps[0][0] == 'lit' and ps[0][1].startswith('(') and ps[-1][0] == 'lit' and ps[-1][1].endswith(')')
    mid = [q for q in ps if q[0] == 'hole']
    extra = ''.join(q[1] for q in ps if q[0] == 'lit')
    if not all(q[0] in ('lit', 'hole') for q in ps):
        return rep.unk('string', where(fi, 'str'), show(p.ret))
    rep.check(ok and extra == '()' and len(mid) == 1 and contains(mid[0][1], x), 'string', fi.loc(), 'a string is written as %s' % show(p.ret))


def frame(rep, fi, p, lo, hi, rule, ty):
    ps = cat_parts(p.ret)
    if p.ret[0] == 'call':
        return None
    if not ps or ps[0][0] != 'lit' or ps[-1][0] != 'lit':
        rep.unk(rule, where(fi, ty), show(p.ret))
        return None
    rep.check(ps[0][1].startswith(lo) and ps[-1][1].endswith(hi), rule, fi.loc(), 'a %s is written between %r and %r' % (ty, ps[0][1], ps[-1][1]))
    stars = [q for q in ps if q[0] == 'star']
    if len(stars) != 1 or any(q[0] == 'hole' for q in ps):
        rep.unk(rule, where(fi, ty), show(p.ret))
        return None
    return stars[0]


def facts_of(eng, star, alt_no):
    """facts of the iteration that produced the alternative"""
    L = eng.loops.get(star[1])
    if L is None:
        return {}
    backs = L.back()
    if len(backs) == len(star[2]):
        return backs[alt_no].facts
    return {}


def is_pobj(h):
    return h[0] == 'call' and h[1] in ('parse_obj', 'parse_stream', 'parse_dict', 'parse_list')


def parg(h):
    return h[2][0] if h[2] else h[3][0][1]


def delimited(facts, h, ind):
    """the partition knows that the value starts with a delimiter, or is the first element"""
    for f, v in facts.items():
        if not contains(f, h) and not contains(f, ind):
            continue
        if v and f[0] == 'inst' and f[1] == parg(h) and f[2] in ('str', 'dict', 'list', 'tuple', 'set'):
            return True
        if contains(f, h):
            if v and f[0] == 'eq':
                c = [y for y in f[1:] if is_c(y)]
                if c and starts(c[0][2]):
                    return True
            if v and f[0] == 'in':
                s = f[2]
                if is_c(s) and isinstance(s[2], (bytes, str)) and all(starts(s[2][i:i + 1]) for i in range(len(s[2]))):
                    return True
            if v and f[0] == 'truthy' and f[1][0] == 'fn' and f[1][1] == 'startswith':
                a = f[1][2][1]
                cs = a[1] if a[0] == 'tuple' else (a,)
                if all(is_c(c) and starts(c[2]) for c in cs):
                    return True
    return False


def first(facts, ind):
    for f, v in facts.items():
        if contains(f, ind) and not any(y[0] == 'call' for y in subterms(f)):
            if f[0] == 'eq' and v and any(y == C(0) for y in f[1:]):
                return True
            if f[0] == 'lt0' and not v and f[1] == p_neg(ind):
                return True
            if f[0] == 'truthy' and not v and f[1] == ind:
                return True
    return False


def starts(v):
    if isinstance(v, int):
        v = chr(v)
    if isinstance(v, bytes):
        v = v.decode('latin')
    return isinstance(v, str) and v[:1] in DELIM


def t_dict(prog, rep, eng, fi, x, p):
    if p.ret[0] == 'call' and p.ret[1] == 'parse_stream':
        rep.bad('dict', fi.loc(), 'a plain dictionary is written as a stream')
        return
    star = frame(rep, fi, p, '<<', '>>', 'dict', 'dict')
    if star is None:
        return
    L = eng.loops.get(star[1])
    entries(rep, eng, fi, x, p, star, L)


def entries(rep, eng, fi, x, p, star, L):
    loc = L.fi.loc(L.node) if L is not None else fi.loc()
    ind = ('ind', star[1])
    key = ('dkey', x, ind)
    if L is not None and L.space is not None and L.space[0] in ('items', 'keys', 'dict'):
        src = L.space[1] if L.space[0] != 'dict' else L.space
        rep.check(True if src == x else None, 'dict', loc, 'entries of %s' % show(src))
    for i, alt in enumerate(star[2]):
        facts = facts_of(eng, star, i)
        text = lit_text(alt)
        if not alt:
            nonev = any(f[0] == 'isnone' and v and contains(f, ('idx', x, key)) for f, v in facts.items())
            rep.check(None if nonev else False, 'dict', loc, 'an entry is left out when %s' % ', '.join(
                ('' if v else 'not ') + show(f) for f, v in facts.items() if contains(f, ind)))
            continue
        holes = [q[1] for q in alt if q[0] == 'hole']
        if len(holes) != 2 or any(q[0] == 'star' for q in alt):
            rep.unk('dict', loc, show(('cat', 'b', tuple(alt))))
            continue
        k, v = holes
        kk = k[2][0] if k[0] == 'fn' and k[1] in ('encode', 'str') else k
        rep.check(text.startswith('/') and alt[0] == ('lit', '/') if kk == key else None, 'dict', loc, 'a key is written as %r' % text)
        if kk == key:
            rep.check(True, 'dict', loc, '')
        if not is_pobj(v):
            rep.unk('dict', loc, 'value %s' % show(v))
            continue
        a = parg(v)
        rep.check(True if a == ('idx', x, key) else (False if a == key else None), 'dict', loc, 'the value of a key is written as %s' % show(a))
        sep = alt[2][1] if len(alt) > 3 and alt[2][0] == 'lit' else ''
        if sep:
            rep.check(sep[-1].isspace() and not sep.strip(), 'separate', loc, 'key and value are separated by %r' % sep)
        else:
            rep.check(delimited(facts, v, ind), 'separate', loc, 'a value can follow its key without white space')


def t_list(prog, rep, eng, fi, x, p):
    star = frame(rep, fi, p, '[', ']', 'list', 'list')
    if star is None:
        return
    L = eng.loops.get(star[1])
    loc = L.fi.loc(L.node) if L is not None else fi.loc()
    ind = ('ind', star[1])
    sp = L.space if L is not None else None
    while sp is not None and sp[0] == 'enumerate':
        sp = sp[1]
    if sp is not None and sp != x:
        if sp[0] in ('reversed',) or (sp[0] == 'fn' and sp[1] in ('sorted', 'set', 'slice', 'reversed')):
            rep.bad('list', loc, 'the elements written are those of %s' % show(sp))
            return
    for i, alt in enumerate(star[2]):
        facts = facts_of(eng, star, i)
        if not alt:
            rep.bad('list', loc, 'an element is left out')
            continue
        holes = [q for q in alt if q[0] == 'hole']
        if len(holes) != 1 or any(q[0] == 'star' for q in alt) or not is_pobj(holes[0][1]):
            rep.unk('list', loc, show(('cat', 'b', tuple(alt))))
            continue
        v = holes[0][1]
        a = parg(v)
        rep.check(True if a == ('idx', x, ind) or (a[0] == 'idx' and a[2] == ind) else None, 'list', loc, 'element %s' % show(a))
        joined = star[3] if len(star) > 3 else ''
        k = alt.index(holes[0])
        before = alt[k - 1][1] if k and alt[k - 1][0] == 'lit' else ''
        after = alt[k + 1][1] if k + 1 < len(alt) and alt[k + 1][0] == 'lit' else ''
        if (before + after + joined):
            s = before + after + joined
            rep.check(s.strip() == '', 'separate', loc, 'elements are separated by %r' % s)
        else:
            rep.check(delimited(facts, v, ind) or first(facts, ind), 'separate', loc, 'an element can follow another one without white space')


t_tuple = t_list
t_set = t_list
