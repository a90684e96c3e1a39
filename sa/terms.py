"""Term domain of the value-flow analyser: Herbrand terms with polynomial and template normal forms.

Terms are nested tuples:
  ('c', typename, value)            constant
  ('sym', name[, ...])              symbol (parameter, head symbol, ...)
  ('attr', base, name, epoch)       initial / last unknown value of an attribute
  ('idx', base, key)                element of an unknown container
  ('fn', name, args)                pure function
  ('call', name, args, kwargs, uid) opaque call result
  ('poly', ((mono, coef), ...))     polynomial (Laurent) with rational coefficients
  ('cat', 's'|'b', parts)           text / bytes template; parts: ('lit', s) | ('hole', term, spec)
                                    | ('star', loopid, alternatives)
  ('tuple', items)                  tuple value
  ('obj', cls, id) ('list', id) ('dict', id) ('set', id)   allocated objects, contents in the heap
"""
from fractions import Fraction

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def C(v):
    return ('c', type(v).__name__, v)


def is_c(t):
    return t[0] == 'c'


def is_num_c(t):
    return t[0] == 'c' and t[1] in ('int', 'float', 'bool', 'Fraction')


def cval(t):
    return t[2]


def sym(name, *rest):
    return ('sym', name) + rest


def fn(name, *args):
    return ('fn', name, tuple(args))


# ------------------------------------------------------------------ polynomials
def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    return Fraction(repr(v))


def to_poly(t):
    if t[0] == 'poly':
        return dict(t[1])
    if is_num_c(t):
        try:
            f = _frac(t[2])
        except (ValueError, ZeroDivisionError):
            return {((t, 1),): Fraction(1)}
        return {(): f} if f else {}
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(int(c)) if c.denominator == 1 else C(float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=lambda kv: repr(kv[0]))))


def p_add(a, b, sb=1):
    r = dict(to_poly(a))
    for m, c in to_poly(b).items():
        r[m] = r.get(m, 0) + sb * c
    return from_poly(r)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


def p_mul(a, b):
    r = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def p_neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def p_inv(b):
    p = {m: c for m, c in to_poly(b).items() if c}
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    return from_poly({((from_poly(p), -1),): Fraction(1)})


def p_div(a, b):
    if is_num_c(b) and not b[2]:
        return fn('div', a, b)
    return p_mul(a, p_inv(b))


def p_sub(a, b):
    return p_add(a, b, -1)


def poly_const(t):
    """rational value if the term is a numeric constant, else None"""
    p = to_poly(t)
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def num_eq(a, b):
    """equal in polynomial normal form"""
    return poly_const(p_sub(a, b)) == 0


# ------------------------------------------------------------------ templates
def as_parts(t, kind):
    """parts of a term used inside a template of the given kind"""
    if t[0] == 'cat' and t[1] == kind:
        return t[2]
    if t[0] == 'c':
        if kind == 's' and t[1] == 'str':
            return (('lit', t[2]),) if t[2] else ()
        if kind == 'b' and t[1] == 'bytes':
            return (('lit', t[2].decode('latin')),) if t[2] else ()
    return (('hole', t, ''),)


def mk_cat(kind, parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        out.append(p)
    if all(p[0] == 'lit' for p in out):
        s = ''.join(p[1] for p in out)
        return C(s) if kind == 's' else C(s.encode('latin'))
    if len(out) == 1 and out[0][0] == 'hole' and out[0][2] == '' and _kind(out[0][1]) == kind:
        return out[0][1]
    return ('cat', kind, tuple(out))


def _kind(t):
    if t[0] == 'cat':
        return t[1]
    if t[0] == 'c':
        return {'str': 's', 'bytes': 'b'}.get(t[1])
    return None


def cat_of(t, kind='s'):
    return ('cat', kind, as_parts(t, kind))


def cat_parts(t):
    """template parts of any string-ish term"""
    if t[0] == 'cat':
        return t[2]
    if t[0] == 'c' and t[1] == 'str':
        return (('lit', t[2]),) if t[2] else ()
    if t[0] == 'c' and t[1] == 'bytes':
        return (('lit', t[2].decode('latin')),) if t[2] else ()
    return (('hole', t, ''),)


def encode_latin(t):
    """latin-1 encoding of a str template: length preserving"""
    if t[0] == 'c' and t[1] == 'str':
        try:
            return C(t[2].encode('latin'))
        except UnicodeEncodeError:
            return fn('encode', t, C('latin'))
    if t[0] == 'cat' and t[1] == 's':
        return mk_cat('b', t[2])
    return fn('encode', t, C('latin'))


def length(t):
    if t[0] == 'c' and t[1] in ('str', 'bytes'):
        return C(len(t[2]))
    if t[0] == 'tuple':
        return C(len(t[1]))
    if t[0] == 'cat':
        r = C(0)
        for p in t[2]:
            if p[0] == 'lit':
                r = p_add(r, C(len(p[1])))
            elif p[0] == 'hole':
                h = p[1]
                if h[0] == 'fn' and h[1] == 'zfill' and p[2] == '':
                    pass
                r = p_add(r, fn('len', h) if p[2] == '' else fn('len', ('cat', 's', (p,))))
            else:
                r = p_add(r, fn('len', p))
        return r
    if t[0] == 'fn' and t[1] == 'encode' and cval_or(t[2][1]) in ('latin', 'ascii'):
        return length(t[2][0])
    return fn('len', t)


def cval_or(t, default=None):
    return t[2] if t[0] == 'c' else default


# ------------------------------------------------------------------ traversal
def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t if isinstance(y, tuple))
    return False


def subst(t, f):
    """rebuild a term bottom-up; f(term) -> replacement or None"""
    r = f(t)
    if r is not None:
        return r
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'poly':
        acc = C(0)
        for m, c in t[1]:
            term = C(int(c)) if c.denominator == 1 else C(c)
            for a, e in m:
                a2 = subst(a, f)
                base = a2 if e > 0 else p_inv(a2)
                for _ in range(abs(e)):
                    term = p_mul(term, base)
            acc = p_add(acc, term)
        return acc
    if k == 'cat':
        parts = []
        for p in t[2]:
            if p[0] == 'hole':
                h = subst(p[1], f)
                if p[2] == '':
                    parts.extend(as_parts(h, t[1]))
                else:
                    parts.append(('hole', h, p[2]))
            else:
                parts.append(p)
        return mk_cat(t[1], parts)
    if k == 'c':
        return t
    out = []
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(subst(x, f))
            else:
                out.append(tuple(subst(y, f) if isinstance(y, tuple) else y for y in x))
        else:
            out.append(x)
    return tuple(out)


def strip_round(t):
    def f(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'fn' and x[1] == 'round':
            return strip_round(x[2][0])
        return None
    return subst(t, f)


ARITY = {'c': 3, 'obj': 3, 'list': 2, 'dict': 2, 'set': 2, 'poly': 2, 'cat': 3, 'tuple': 2, 'fn': 3,
         'call': 5, 'idx': 3, 'attr': 4}


def is_term(x):
    """a tuple that is a term (and not e.g. a (name, term) pair)"""
    if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
        return False
    if x[0] in ARITY and len(x) != ARITY[x[0]]:
        return False
    if x[0] in ('list', 'dict', 'set') and not isinstance(x[1], int):
        return False
    return True


def show(t, depth=0):
    """readable rendering of a term (for reports)"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if not is_term(t):
        return '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t) + ')'
    k = t[0]
    if k == 'obj':
        return '<%s#%s>' % (t[1], t[2])
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join([show(a) for a in t[2] if isinstance(a, tuple)] +
                                           ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k == 'c':
        return repr(t[2])
    if k == 'sym':
        return str(t[1])
    if k == 'head':
        return 'prev(%s)' % (show_loc(t[2]),)
    if k == 'out':
        return 'after-loop(%s)' % (show_loc(t[2]),)
    if k == 'attr':
        return '%s.%s%s' % (show(t[1]), t[2], "'" * min(t[3], 3) if len(t) > 3 else '')
    if k == 'idx':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'fn':
        return '%s(%s)' % (t[1], ', '.join(show(a) for a in t[2]))
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join([show(a) for a in t[2]] +
                                           ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k == 'poly':
        out = []
        for m, c in t[1]:
            s = '*'.join(show(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            out.append(s if c == 1 and s else ('%s*%s' % (c, s) if s else str(c)))
        return '(' + ' + '.join(out) + ')'
    if k == 'cat':
        return repr(''.join(p[1] if p[0] == 'lit' else ('{%s}' % show(p[1]) if p[0] == 'hole' else '{*}')
                            for p in t[2]))
    if k == 'tuple':
        return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k in ('obj',):
        return '<%s#%s>' % (t[1], t[2])
    if k in ('list', 'dict', 'set'):
        return '<%s#%s>' % (k, t[1])
    return k + '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def show_loc(l):
    if isinstance(l, tuple) and l and l[0] == 'env':
        return l[1]
    if isinstance(l, tuple) and l and l[0] == 'a':
        return show(l[1]) + '.' + l[2]
    return str(l)[:80]
