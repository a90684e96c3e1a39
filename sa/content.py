"""Abstract parser of page-content templates: literals, holes and repetitions are run through the lexical and
operator grammar of PDF contents."""
import re

from .engine import Engine, all_events
from .terms import *

WS = ' \t\r\n\f\0'
DELIM = '()<>[]{}/%'
N = 'num'
# operator: (operand kinds, where it may occur: t text object only, p outside text objects only, * both)
OPS = {
    'q': ((), 'p'), 'Q': ((), 'p'), 'cm': ((N,) * 6, 'p'),
    'w': ((N,), '*'), 'J': ((N,), '*'), 'j': ((N,), '*'), 'M': ((N,), '*'), 'd': (('array', N), '*'),
    'ri': (('name',), '*'), 'i': ((N,), '*'), 'gs': (('name',), '*'),
    'm': ((N,) * 2, 'p'), 'l': ((N,) * 2, 'p'), 'c': ((N,) * 6, 'p'), 'v': ((N,) * 4, 'p'), 'y': ((N,) * 4, 'p'),
    'h': ((), 'p'), 're': ((N,) * 4, 'p'),
    'S': ((), 'p'), 's': ((), 'p'), 'f': ((), 'p'), 'F': ((), 'p'), 'f*': ((), 'p'), 'B': ((), 'p'), 'B*': ((), 'p'),
    'b': ((), 'p'), 'b*': ((), 'p'), 'n': ((), 'p'), 'W': ((), 'p'), 'W*': ((), 'p'),
    'BT': ((), 'p'), 'ET': ((), 't'),
    'Tc': ((N,), '*'), 'Tw': ((N,), '*'), 'Tz': ((N,), '*'), 'TL': ((N,), '*'), 'Tf': (('name', N), '*'),
    'Tr': ((N,), '*'), 'Ts': ((N,), '*'),
    'Td': ((N,) * 2, 't'), 'TD': ((N,) * 2, 't'), 'Tm': ((N,) * 6, 't'), 'T*': ((), 't'),
    'Tj': (('string',), 't'), 'TJ': (('array',), 't'), "'": (('string',), 't'), '"': ((N, N, 'string'), 't'),
    'G': ((N,), '*'), 'g': ((N,), '*'), 'RG': ((N,) * 3, '*'), 'rg': ((N,) * 3, '*'), 'K': ((N,) * 4, '*'), 'k': ((N,) * 4, '*'),
    'Do': (('name',), 'p'), 'BMC': (('name',), '*'), 'EMC': ((), '*'),
}
PATH = {'m', 'l', 'c', 'v', 'y', 'h', 're'}
PAINT = {'S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n'}
NUMBER = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)$')


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


class St:
    """parser state between characters"""
    __slots__ = ('tok', 'ops', 'text', 'q', 'path', 'mode', 'inarr', 'strd', 'glue')

    def __init__(self, text=None):
        self.tok = ()          # pending regular token: characters and holes
        self.ops = ()          # operands waiting for their operator
        self.text = text       # inside a text object; None unknown
        self.q = ()            # open saves (value of text at the time)
        self.path = False
        self.inarr = None      # operands before [
        self.strd = None       # inside a literal string
        self.glue = None       # token completed without having seen what follows it

    def key(self):
        return (self.tok, self.ops, self.text, self.q, self.path, self.inarr, self.strd, self.glue)

    def copy(self):
        s = St()
        for f in self.__slots__:
            if f != 'mode':
                setattr(s, f, getattr(self, f))
        return s


def num_term(t, kinds):
    """(True/False/None, why): the term prints as a plain number"""
    if is_c(t):
        if isinstance(t[2], bool) or not isinstance(t[2], (int, float)):
            return False, 'not a number: %r' % (t[2],)
        return ('e' not in repr(t[2])), 'exponent'
    if t[0] == 'fn':
        if t[1] == 'round':
            if len(t[2]) == 1:
                return True, ''
            if is_c(t[2][1]):
                n = t[2][1][2]
                if n is None or isinstance(n, int) and n <= 4:
                    return True, ''
                return False, 'a value rounded to %s decimals can be written with an exponent' % n
            return None, ''
        if t[1] in ('int', 'len', 'floor', 'ceil', 'ord'):
            return True, ''
        if t[1] in ('abs',):
            return num_term(t[2][0], kinds)
        if t[1] in ('float', 'sum', 'div', 'sqrt', 'pow'):
            return False, 'a computed value is written without rounding'
        if t[1] in ('min', 'max'):
            r = [num_term(x, kinds)[0] for x in t[2]]
            return (True if all(r) else (False if False in r else None)), 'unrounded value'
        return None, ''
    if t[0] == 'poly':
        p = to_poly(t)
        atoms = {a for m in p for a, e in m}
        rounded = all(a[0] == 'fn' and a[1] == 'round' and len(a[2]) > 1 and is_c(a[2][1]) and isinstance(a[2][1][2], int) for a in atoms)
        ints = all(a[0] == 'fn' and (a[1] == 'len' or a[1] == 'round' and len(a[2]) == 1) or a[0] == 'ind' for a in atoms)
        if ints and all(c.denominator == 1 for c in p.values()):
            return True, ''
        if rounded and len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                d = m[0][0][2][1][2]
                if 10.0 ** -d * abs(float(c)) >= 1e-4:
                    return True, ''
        if rounded and set(len(m) for m in p) <= {0, 1} and sum(1 for m in p if m) == 1 and p.get((), 0).denominator == 1:
            (m, c), = [(m, c) for m, c in p.items() if m]
            # a whole number added to a rounded value cancels exactly or not at all
            if abs(c) == 1 and m[0][1] == 1 and m[0][0][2][1][2] <= 3:
                return True, ''
        return False, 'a computed value is written without rounding, which prints an exponent when it is small'
    if t[0] in ('attr', 'idx', 'head', 'get', 'out', 'sym'):
        if kinds.get(t) in ('s', 'b'):
            return None, ''
        return False, 'a value is written without rounding, which prints an exponent when it is small'
    return None, ''


class Parser:
    """frag(term) -> 'page'/'text'/'any'/None : classification of a hole that stands for whole operators
    expand(term) -> list of part tuples or None : templates of a call
    """
    def __init__(self, kinds, frag, expand=None, top=False, public=False):
        self.kinds = kinds
        self.top = top          # the contents are added to a page as they are
        self.public = public    # parameters come from the user
        self.frag = frag
        self.expand = expand or (lambda t: None)
        self.need = {}          # unclassified fragment -> set of modes it is placed in
        self.unsure = []
        self.numbers = 0
        self.opcount = 0
        self.glued = set()      # fragments that follow a token without white space

    # ---------------------------------------------------------------- driver
    def run(self, parts, text):
        """parse a fragment that starts between operators; returns final states"""
        st = St(text)
        out = self.seq(parts, [st])
        res = []
        for s in out:
            s = self.flush(s)
            res.append(s)
        return res

    def seq(self, parts, states):
        for p in parts:
            nxt = {}
            for s in states:
                for r in self.part(p, s):
                    nxt[r.key()] = r
            states = list(nxt.values())
            if len(states) > 400:
                raise Unsure('too many states')
        return states

    def part(self, p, s):
        if p[0] == 'lit':
            s = s.copy()
            for ch in p[1]:
                s = self.char(ch, s)
            return [s]
        if p[0] == 'star':
            return self.star(p, s)
        if p[0] == 'hole':
            return self.hole(p[1], p[2], s)
        raise Unsure('part %s' % (p[0],))

    def star(self, p, s):
        zero = s
        if s.tok and all(first_ws(a, self.expand) is True for a in p[2]):
            s = self.flush(s)
        seen = {s.key(): s, zero.key(): zero}
        work = [s]
        first = True
        while work:
            cur = work.pop()
            for alt in p[2]:
                alt2 = alt if len(p) < 4 or (first and cur is s) else (('lit', p[3]),) + tuple(alt)
                for r in self.seq(alt2, [cur]):
                    r = self.close(r)
                    if r.q != s.q or r.text != s.text or r.path != s.path:
                        what = 'saves and restores' if r.q != s.q else ('begin/end text' if r.text != s.text else 'path')
                        raise Bad('%s do not balance in a repeated part' % what)
                    if r.key() not in seen:
                        seen[r.key()] = r
                        work.append(r)
                        if len(seen) > 60:
                            raise Bad('operands pile up in a repeated part') if len(r.ops) > 20 else Unsure('repetition')
            first = False
        return list(seen.values())

    def close(self, s):
        """complete a pending literal token before it is known what follows"""
        if not s.tok:
            return s
        tok = ''.join(x if isinstance(x, str) else '{}' for x in s.tok)
        s = self.flush(s).copy()
        s.glue = tok
        return s

    # ---------------------------------------------------------------- lexing
    def char(self, ch, s):
        if s.strd is not None:
            depth, esc = s.strd
            s = s.copy()
            if esc:
                s.strd = (depth, False)
            elif ch == '\\':
                s.strd = (depth, True)
            elif ch == '(':
                s.strd = (depth + 1, False)
            elif ch == ')':
                if depth == 1:
                    s.strd = None
                    s.ops = s.ops + (('string',),)
                else:
                    s.strd = (depth - 1, False)
            return s
        if s.glue is not None:
            if ch not in WS and ch not in DELIM:
                raise Bad('%r and %r run together' % (s.glue, ch))
            s = s.copy()
            s.glue = None
        if ch in WS:
            return self.flush(s)
        if ch in DELIM:
            if ch == '/' and not s.tok:
                s = s.copy()
                s.tok = ('/',)
                return s
            s = self.flush(s).copy()
            if ch == '(':
                s.strd = (1, False)
            elif ch == '/':
                s.tok = ('/',)
            elif ch == '[':
                if s.inarr is not None:
                    raise Bad('nested array')
                s.inarr = s.ops
                s.ops = ()
            elif ch == ']':
                if s.inarr is None:
                    raise Bad('] without [')
                if any(o[0] == 'op' for o in s.ops):
                    raise Bad('operator in an array')
                for o in s.ops:
                    if o[0] == '?':
                        self.as_number(o[1])
                s.ops = s.inarr + (('array',),)
                s.inarr = None
            else:
                raise Unsure('delimiter %r' % ch)
            return s
        s = s.copy()
        s.tok = s.tok + (ch,)
        return s

    def hole(self, t, spec, s):
        if s.strd is not None:
            return [s]
        if spec in ('', 's'):
            if is_c(t) and isinstance(t[2], str):
                return self.seq((('lit', t[2]),), [s])
            ex = self.expand(t)
            if ex is not None:
                out = {}
                for parts in ex:
                    for r in self.seq(parts, [s]):
                        out[r.key()] = r
                return list(out.values())
            f = self.frag(t)
            if f is not None:
                # whole operators: empty, or starting with white space
                if s.tok:
                    s = self.flush(s)
                    self.glued.add(t)
                if any(o[0] != '?' for o in s.ops):
                    raise Bad('operands before %s belong to no operator' % show(t))
                self.place(t, f, s)
                s = s.copy()
                s.glue = None
                s.ops = ()
                return [s]
        if s.glue is not None:
            if spec or num_term(t, self.kinds)[0]:
                raise Bad('%r and a number run together' % s.glue)
            if self.frag(t) is None:
                raise Unsure('%r is followed by %s' % (s.glue, show(t)))
        s = s.copy()
        s.glue = None
        s.tok = s.tok + (('hole', t, spec),)
        return [s]

    def place(self, t, f, s):
        mode = 'text' if s.text else ('page' if s.text is not None else None)
        if f == 'any':
            return
        if f in ('text', 'page'):
            if mode is not None and mode != f:
                raise Bad('%s operators are placed %s a text object' % (f, 'inside' if mode == 'text' else 'outside'))
        self.need.setdefault(t, set()).add(mode)

    def flush(self, s):
        tok = s.tok
        if not tok:
            return s
        s = s.copy()
        s.tok = ()
        holes = [x for x in tok if isinstance(x, tuple)]
        text = ''.join(x if isinstance(x, str) else '\1' for x in tok)
        if tok[0] == '/':
            if len(tok) == 1:
                raise Bad('empty name')
            s.ops = s.ops + (('name',),)
            return s
        if not holes:
            if NUMBER.match(text):
                s.ops = s.ops + (('num',),)
                return s
            return self.operator(text, s)
        if len(holes) == 1 and text in ('\1', '-\1', '+\1'):
            _, t, spec = holes[0]
            if spec:
                m = re.match(r'^[-+ ]?0?\d*\.(\d+)f$|^d$|^f$|^\.(\d+)f$', spec)
                if m:
                    s.ops = s.ops + (('num',),)
                    return s
                if spec[-1] in 'eEgGn%':
                    raise Bad('a number is formatted with %r, which can produce an exponent' % spec)
                self.unsure.append('format %r' % spec)
                s.ops = s.ops + (('num',),)
                return s
            v, why = num_term(t, self.kinds)
            if v:
                self.numbers += 1
                s.ops = s.ops + (('num',),)
                return s
            if text != '\1':
                self.as_number(t)
                s.ops = s.ops + (('num',),)
                return s
            s.ops = s.ops + (('?', t),)
            return s
        # characters and holes run together
        if text.startswith('\1') and len(holes) == 1:
            v, why = num_term(holes[0][1], self.kinds)
            rest = text[1:]
            if v or rest in OPS:
                raise Bad('number and %r run together' % rest)
        if all(num_term(h[1], self.kinds)[0] for h in holes) and len(holes) > 1:
            raise Bad('two numbers run together: %s' % text.replace('\1', '{}'))
        i = next(k for k, x in enumerate(tok) if isinstance(x, tuple))
        head = ''.join(tok[:i])
        if head and head in OPS and len(tok) == i + 1:
            # operator directly followed by a hole: the hole has to start with white space
            s = self.operator(head, s)
            t = tok[i][1]
            v, why = num_term(t, self.kinds)
            if v:
                raise Bad('%r and a number run together' % head)
            self.glued.add(t)
            s.ops = s.ops + (('?', t),)
            return s
        tail = ''.join(x for x in tok[i + 1:] if isinstance(x, str))
        if head in OPS and tail in OPS and len(holes) == 1:
            raise Bad('%r directly follows what %s stands for' % (tail, show(tok[i][1])[:60]))
        raise Unsure('token %s' % text.replace('\1', '{}'))

    def as_number(self, t):
        v, why = num_term(t, self.kinds)
        self.numbers += 1
        if v is False:
            if t[0] == 'sym' and not self.public:
                self.unsure.append('parameter %s is written as a number' % show(t))
                return
            raise Bad('%s (%s)' % (why, show(t)[:80]))
        if v is None:
            self.unsure.append('number %s' % show(t)[:80])

    def operator(self, op, s):
        if op not in OPS:
            raise Bad('%r is no content operator' % op)
        self.opcount += 1
        kinds, where = OPS[op]
        ops = s.ops
        k = len(kinds)
        if len(ops) < k:
            raise Bad('%r gets %d operands instead of %d' % (op, len(ops), k))
        rest, mine = ops[:len(ops) - k], ops[len(ops) - k:]
        for o in rest:
            if o[0] != '?':
                raise Bad('%r gets %d operands instead of %d' % (op, len([x for x in ops]), k))
            f = self.frag(o[1])
            self.place(o[1], f, s)
        for o, kd in zip(mine, kinds):
            if o[0] == '?':
                if kd == N:
                    self.as_number(o[1])
                else:
                    raise Unsure('operand of %s' % op)
            elif o[0] != kd:
                raise Bad('%r gets a %s where it takes a %s' % (op, o[0], kd))
        s = s.copy()
        s.ops = ()
        if s.inarr is not None:
            raise Bad('operator %r in an array' % op)
        if where == 't' and s.text is False:
            raise Bad('%r outside a text object' % op)
        if where == 'p' and s.text:
            raise Bad('%r inside a text object' % op)
        if op == 'BT':
            s.text = True
        elif op == 'ET':
            s.text = False
        elif op == 'cm' and self.top and not s.q:
            raise Bad('the coordinate system is changed outside a save and restore')
        elif op == 'q':
            s.q = s.q + (s.text,)
        elif op == 'Q':
            if not s.q:
                raise Bad('restore without a save')
            s.q = s.q[:-1]
        if s.path and op not in PATH and op not in PAINT and op not in ('W', 'W*'):
            raise Bad('%r between building and painting a path' % op)
        if op in PATH:
            if op in ('l', 'c', 'v', 'y', 'h') and not s.path:
                raise Bad('%r without a current point' % op)
            s.path = True
        elif op in PAINT:
            if not s.path:
                raise Bad('%r paints no path' % op)
            s.path = False
        return s


def finished(p, s, q0=()):
    """problems of a final state"""
    if s.strd is not None:
        return 'unterminated string'
    if s.inarr is not None:
        return 'unterminated array'
    for o in s.ops:
        if o[0] != '?':
            return 'operands at the end belong to no operator'
    if s.q != q0:
        return '%d saves are not restored' % len(s.q)
    if s.path:
        return 'a path is built but not painted'
    return None


def first_ws(parts, expand=None):
    """True: starts with white space (or is empty), False: starts with a regular character, None: unknown"""
    for i, p in enumerate(parts):
        if p[0] == 'lit':
            return p[1][0] in WS or p[1][0] in '([/' if p[1] else True
        if p[0] == 'star':
            r = [first_ws(a, expand) for a in p[2]]
            if False in r:
                return False
            if None in r:
                return None
            continue
        ex = expand(p[1]) if expand is not None and p[0] == 'hole' and p[2] in ('', 's') else None
        if ex is not None:
            r = [first_ws(tuple(e) + tuple(parts[i + 1:]), expand) for e in ex]
            return False if False in r else (None if None in r else True)
        return None
    return True
