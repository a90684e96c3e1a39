"""C06: graphics-state operators are left out only when they would repeat the value in force.  Every piece of
content is split into operators; for each state operator, the executions that skip it are compared with those
that emit it: the skipping ones must have found the remembered value equal to the wanted one, the emitting ones
must remember what they emitted, and the memory starts empty with every block."""
import ast
import re

from .common import *
from ..access import mutations, callers
from ..content import OPS
from .c05 import has_operators, is_color, types_for, TYPES

TECHNIQUE = ('value-flow analysis of every function that composes contents: per-path facts about the remembered values are '
             'checked against the operators emitted or skipped on that path, and against the memory written')

SETTERS = {'Tf', 'Ts', 'Tw', 'Tc', 'Tz', 'Tr', 'TL', 'w', 'J', 'j', 'M', 'd', 'i', 'gs', 'g', 'rg', 'k', 'G', 'RG', 'K'}
COLOR_OPS = {'g': 'F', 'rg': 'F', 'k': 'F', 'G': 'S', 'RG': 'S', 'K': 'S'}
DRAW = {'Tj': 'T', 'TJ': 'T', "'": 'T', '"': 'T', 'f': 'F', 'F': 'F', 'f*': 'F', 'S': 'S', 's': 'S',
        'B': 'FS', 'B*': 'FS', 'b': 'FS', 'b*': 'FS'}
NEEDS = {'T': {'Tf', 'Ts', 'Tw', 'Tc', 'Tz', 'Tr', 'state', 'colour@T', 'colour@F'}, 'F': {'colour@F'},
         'S': {'colour@S', 'w', 'J', 'j', 'M', 'd'}}


class Unit:
    def __init__(self, fi, parts, facts, olds, new, canon, loop, where):
        self.fi, self.parts, self.facts, self.olds, self.newval, self.canon = fi, parts, facts, olds, new, canon
        self.loop = loop
        self.where = where
        self.items = None

    def setters(self):
        return [i for i in self.items if i[0] == 'set']

    def draws(self):
        return [i for i in self.items if i[0] == 'draw']


TOKEN = re.compile(r'\((?:\\.|[^)\\])*\)|\[[^\]]*\]|/[^\s()\[\]/]*|[^\s()\[\]/]+')


def items_of(parts, colorp):
    """sequence of ('set', name, operand) and ('draw', letter); None when the template is not understood"""
    holes, text = [], ''
    flat_parts = []
    for p in parts:
        if p[0] == 'hole' and p[1][0] == 'fn' and p[1][1] in ('strip', 'lstrip', 'rstrip') and p[1][2][0][0] == 'cat':
            flat_parts.extend(cat_parts(p[1][2][0]))
        else:
            flat_parts.append(p)
    for p in flat_parts:
        if p[0] == 'lit':
            text += p[1]
        elif p[0] == 'hole':
            text += chr(0xE000 + len(holes))
            if p[2] in ('', 's') and (colorp(p[1]) or p[1][0] == 'call'):
                text += ' '
            holes.append(p[1])
        else:
            text += ' \uF8FF '
    raw, pend = [], []

    def operand(tok):
        return (re.sub('[\uE000-\uF8FE]', '\1', tok), tuple(holes[ord(c) - 0xE000] for c in tok if '\uE000' <= c < '\uF8FF'))

    def frags(toks):
        for t in toks:
            s, hs = operand(t)
            if s == '\1':
                raw.append(('frag', hs[0]))
    for m in TOKEN.finditer(text):
        tok = m.group(0)
        if tok == '\uF8FF':
            frags(pend)
            pend = []
            raw.append(('star',))
        elif tok in OPS:
            k = len(OPS[tok][0])
            frags(pend[:len(pend) - k])
            raw.append(('op', tok, tuple(operand(t) for t in pend[len(pend) - k:]) if k else ()))
            pend = []
        else:
            pend.append(tok)
    frags(pend)
    out = []
    for i, r in enumerate(raw):
        if r[0] == 'star':
            out.append(('star',))
        elif r[0] == 'frag':
            t = r[1]
            if t[0] == 'call' and t[1] == 'PDFState.compare':
                out.append(('set', 'state', t))
            else:
                nxt = next((DRAW[x[1]][0] for x in raw[i + 1:] if x[0] == 'op' and x[1] in DRAW), None)
                if not colorp(t) and (nxt not in ('F', 'S') or t[0] not in ('head', 'attr', 'idx', 'get', 'sym')):
                    continue
                out.append(('set', 'colour@%s' % nxt, (('\1', (t,)),)))
        elif r[1] in COLOR_OPS:
            out.append(('set', 'colour@' + COLOR_OPS[r[1]], r[2]))
        elif r[1] in SETTERS:
            out.append(('set', r[1], r[2]))
        elif r[1] in DRAW:
            for d in DRAW[r[1]]:
                out.append(('draw', d))
        elif r[1] in ('q', 'Q', 'BT'):
            out.append(('scope', r[1]))
    return out


def run(prog, rep):
    rep.rule('skip', 'an operator is skipped only where the remembered value was found equal to the wanted one')
    rep.rule('remember', 'what is emitted is remembered, and nothing else is')
    rep.rule('reset', 'the memory starts empty with every block of contents')
    rep.rule('equal', 'values that compare equal are written the same way')
    rep.assumptions.append('a font family and mode denote one font object during a document (PDFFonts.get_font)')
    cx = Ctx(prog, rep)
    rep.section('skip', functions, cx)
    rep.section('skip', compare, cx)
    rep.section('equal', equality, cx)
    rep.section('reset', resets, cx)


class Ctx:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.memory = {}      # (class name, attr) -> setters
        self.streams = set()  # (class name, attr)


def colorp_for(prog, eng):
    def f(t):
        if t[0] in ('obj', 'new'):
            return True
        if is_color(eng, prog, t):
            return True
        if t[0] in ('idx', 'get') and t[2] == C('color'):
            return True
        return False
    return f


def canon_for(state_attr):
    """objects are named by their class and contents"""
    memo = {}

    def canon(t, depth=0):
        def f(x):
            if x[0] == 'obj':
                if x not in memo:
                    memo[x] = x
                    memo[x] = ('object', tuple((n, canon(v)) for n, v in state_attr(x)))
                return memo[x]
            if x[0] == 'call' and x[4:] != (0,) and '.' not in x[1]:
                return ('call', x[1], tuple(canon(y) for y in x[2]), tuple((n, canon(y)) for n, y in x[3]), 0)
            return None
        return subst(t, f)
    return canon


def obj_attrs(state, x):
    return sorted(((k[2], v) for k, v in state.heap.items() if k[0] == 'a' and k[1] == x), key=repr)


def functions(cx):
    prog, rep = cx.prog, cx.rep
    prods = {f.qual for f in prog.all_functions() if has_operators(f) and f.kind != 'class'}
    enc = {f.qual for f in prog.all_functions() if f.name == 'encode_text'}
    n = 0
    for fi in prog.all_functions():
        uses = has_operators(fi) or any(isinstance(x, ast.Attribute) and x.attr == 'compare' for x in ast.walk(fi.node))
        if not uses or fi.qual in ('PDFState.compare', 'PDFColor.__str__') or fi.name == '__str__':
            continue
        eng = Engine(prog, opaque=(prods - {fi.qual}) | enc | {'PDFPage.add', 'PDFState.compare', 'PDFTextBase.clean_words', 'PDF.add_page'})
        eng.nomerge = True
        try:
            parts = eng.analyse(fi, types=types_for(fi))
        except TooComplex as e:
            rep.unk('skip', fi.loc(), str(e))
            continue
        rep.functions |= eng.analysed
        sets = units(cx, fi, eng, parts)
        for us in sets:
            n += len(us)
            judge(cx, fi, eng, us)
    rep.count('executions composing contents', n)


def units(cx, fi, eng, parts):
    prog = cx.prog
    self_ = ('sym', fi.args[0]) if fi.cls is not None and fi.args else None
    colorp = colorp_for(prog, eng)
    out = {}

    def add(key, u):
        u.items = items_of(u.parts, colorp)
        out.setdefault(key, []).append(u)
    for p in parts:
        if p.raised:
            continue
        cn = canon_for(lambda x, p=p: obj_attrs(p.state, x))

        def new(m, p=p):
            v = p.attr(m[1], m[2]) if m[0] == 'attr' else None
            return m if v is None else v
        if p.ret is not None and (p.ret[0] in ('cat', 'call') or is_c(p.ret)):
            ps = cat_parts(p.ret) if p.ret[0] != 'call' else (('hole', p.ret, ''),)
            add('return', Unit(fi, ps, p.facts, None, new, cn, None, p.where()))
        done = {}
        for ev, stk in all_events(p.trace):
            if ev.kind == 'write' and ev.a[0] == self_ and not stk and ev.a[2][0] == 'cat':
                done[ev.a[1]] = ev.a[2]
        for a, t in done.items():
            ps = cat_parts(t)
            if ps and ps[0][0] == 'hole' and ps[0][1] == ('attr', self_, a, 0):
                add('self.' + a, Unit(fi, ps[1:], p.facts, None, new, cn, None, p.where()))
    for L in eng.loops.values():
        for s, sig in L.parts:
            if sig is not None and sig[0] == 'raise':
                continue
            cn = canon_for(lambda x, s=s: obj_attrs(s, x))

            def new(m, s=s, L=L):
                if m[0] == 'head':
                    return eng.get_loc(s, m[2])
                if m[0] == 'attr':
                    loc = next((l for l, h in L.head.items() if h == m), None)
                    if loc is not None:
                        return eng.get_loc(s, loc)
                    v = s.heap.get(('a', m[1], m[2]))
                    return m if v is None else v
                return m
            for loc, h in L.head.items():
                v = eng.get_loc(s, loc)
                if v is None:
                    continue
                if v == h:
                    add((L.id, loc), Unit(fi, (), s.facts, None, new, cn, L, ''))
                elif v[0] == 'cat':
                    ps = cat_parts(v)
                    if ps and ps[0][0] == 'hole' and ps[0][1] == h:
                        add((L.id, loc), Unit(fi, ps[1:], s.facts, None, new, cn, L, ''))
            byl = {}
            for ev in own_trace(L, s):
                if ev.kind == 'append':
                    t = ev.a[1]
                    byl.setdefault(ev.a[0], []).extend([('lit', ' ')] + list(cat_parts(t) if t[0] == 'cat' or is_c(t) and isinstance(t[2], str) else [('hole', t, '')]))
            lists = {ev.a[0] for s2, _ in L.parts for ev in own_trace(L, s2) if ev.kind == 'append'}
            for b in lists:
                add((L.id, 'list', b), Unit(fi, tuple(byl.get(b, ())), s.facts, None, new, cn, L, ''))
    return [us for us in out.values() if any(u.draws() for u in us) and any(u.setters() for u in us)]


def memories(cx, fi, eng, us):
    """terms that hold remembered values on entry"""
    prog = cx.prog
    out = set()
    self_ = ('sym', fi.args[0]) if fi.cls is not None and fi.args else None
    written = set()
    if fi.cls is not None:
        for f in prog.all_functions():
            if f.cls is not None and (f.cls in prog.mro(fi.cls) or fi.cls in prog.mro(f.cls)) and f.name != '__init__':
                for nd, bt, attr, how in mutations(prog, f):
                    if isinstance(nd, (ast.Assign, ast.AugAssign)):
                        written.add(attr)
    for u in us:
        L = u.loop
        if L is not None:
            out |= {h for l, h in L.head.items() if h[0] in ('head', 'attr')}
        for f in u.facts:
            for x in subterms(f) if is_term(f) else ():
                if x[0] == 'attr' and x[1] == self_ and x[2] in written:
                    out.add(x)
    return out


def eqs(u):
    """equalities found to hold: (a, b)"""
    for f, v in u.facts.items():
        if isinstance(f, tuple) and f[0] == 'truthy' and is_term(f[1]) and f[1][0] in ('is', 'eq') and len(f[1]) == 3:
            f = f[1]
        if v is not True or not isinstance(f, tuple) or len(f) != 3 or f[0] not in ('eq', 'is'):
            continue
        a, b = f[1], f[2]
        if a[0] in ('tuple', 'list') and b[0] == a[0] and isinstance(a[1], tuple) and len(a[1]) == len(b[1]):
            yield from zip(a[1], b[1])
        else:
            yield a, b


def has(t, m):
    return contains(t, m)


def tokens(a):
    out = {a}
    if a[0] == 'poly':
        p = to_poly(a)
        vs = [m for m in p if m]
        if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1:
            out.add(vs[0][0][0])
    return out


def determined(t, toks):
    """t is a function of constants and the values toks"""
    if t in toks or is_c(t):
        return True
    if t[0] == 'fn':
        return all(determined(x, toks) for x in t[2])
    if t[0] == 'poly':
        return all(determined(a, toks) for m in to_poly(t) for a, e in m)
    if t[0] in ('attr', 'idx'):
        return determined(t[1], toks) and (t[0] == 'attr' or determined(t[2], toks))
    if t[0] == 'cat':
        return all(p[0] == 'lit' or p[0] == 'hole' and determined(p[1], toks) for p in cat_parts(t))
    if t[0] == 'object':
        return all(determined(v, toks) for n, v in t[1])
    return False


def operand_in(op, W):
    """the operand appears literally in the wanted text W"""
    if W[0] != 'cat' and not (is_c(W) and isinstance(W[2], str)):
        return False
    it = items_of(cat_parts(W), lambda t: False)
    return any(i[0] == 'set' and i[2] == op for i in it)


def compatible(e, u, ms):
    for f, v in e.facts.items():
        if not isinstance(f, tuple) or not isinstance(v, bool):
            continue
        if any(contains(f, m) for m in ms):
            continue
        w = u.facts.get(f)
        if isinstance(w, bool) and w != v:
            return False
    return True


def same(a, b, e):
    """three-valued equality of terms under the facts of e"""
    a, b = e.canon(a), e.canon(b)
    if a == b:
        return True
    d = None
    try:
        d = differ(a, b)
    except Exception:
        d = None
    if d is not None:
        return d
    for x, y in eqs(e):
        if {e.canon(x), e.canon(y)} == {a, b}:
            return True
    return None if any(x[0] in ('unk', 'call') for t in (a, b) for x in subterms(t)) else False


def judge(cx, fi, eng, us):
    rep, prog = cx.rep, cx.prog
    ms = memories(cx, fi, eng, us)
    names = {s[1] for u in us for s in u.setters()}
    used = {}            # setter -> memories used for it
    for X in sorted(names):
        if X == 'state':
            continue
        emit = [u for u in us if any(s[1] == X for s in u.setters())]
        shapes = {tuple(re.sub(r'^-?[\d.]+$', '\1', t) for t, hs in s[2]) for u in us for s in u.setters() if s[1] == X}
        for u in us:
            need = [i for i, it in enumerate(u.items) if it[0] == 'draw' and X in NEEDS[it[1]]]
            if not need:
                continue
            before = [it for it in u.items[:need[0]] if it[0] == 'set' and it[1] == X]
            if before:
                rep.ok('skip', fi.loc() + ' ' + X)
                continue
            if any(it[0] == 'set' and it[1] == X for it in u.items):
                rep.bad('skip', fi.loc(), '%s is emitted after the drawing operator it is for' % X)
                continue
            if any(it[0] == 'star' for it in u.items):
                rep.unk('skip', fi.loc(), '%s in a repetition' % X)
                continue
            cand = []
            for a, b in eqs(u):
                for x, y in ((a, b), (b, a)):
                    m = [k for k in ms if has(y, k)]
                    if m and not any(has(x, k) for k in m):
                        cand.append((u.canon(x), y, m))
            es = [e for e in emit if compatible(e, u, ms)]
            if not es:
                rep.bad('skip', fi.loc(), '%s is never emitted when %s' % (X, u.where[:160]), key=X)
                continue
            verdicts = []
            for e in es:
                O = [s for s in e.setters() if s[1] == X][-1][2]
                groups = [[c] for c in cand] + ([cand] if len(cand) > 1 else [])
                best, why, rel = None, None, None
                for g in groups:
                    v, w = remembered(e, O, g, len(shapes) > 1)
                    if v is None and w is None:
                        continue
                    if rel is None or v is True and best is not True or v is None and best is False:
                        best, why, rel = v, w, g
                    if best is True:
                        break
                if rel is None:
                    best, why = False, 'no remembered value was found equal to the wanted one'
                else:
                    for W, y, m in rel:
                        used.setdefault(X, set()).update(m)
                verdicts.append((best, why))
            if any(v is False for v, w in verdicts):
                w = next(w for v, w in verdicts if v is False)
                rep.bad('remember' if 'remembered instead' in (w or '') else 'skip', fi.loc(), '%s is left out although %s%s' % (
                    X, w, ' (when %s)' % u.where[:120] if u.where else ''), key=X)
            elif any(v is None for v, w in verdicts):
                rep.unk('skip', fi.loc(), '%s: %s' % (X, verdicts[0][1]))
            else:
                rep.ok('skip', fi.loc() + ' ' + X)
    # nothing is remembered that was not emitted
    for X, mm in used.items():
        for u in us:
            hit = any(s[1] == X for s in u.setters())
            for m in mm:
                v = u.newval(m)
                if v == m:
                    if hit:
                        # emitted without a change of the memory
                        rep.bad('remember', fi.loc(), '%s is emitted, but not remembered in %s' % (X, show(m)), key=X)
                    continue
                if hit or v == NONE:
                    rep.ok('remember', fi.loc() + ' ' + X)
                    continue
                r = any(same(v, m2, u) is True for a, b in eqs(u) for x, m2 in ((a, b), (b, a)) if x == m)
                rep.check(True if r else False, 'remember', fi.loc(), '%s is remembered in %s without emitting %s' % (show(v)[:60], show(m), X), key=X)
    for X, mm in used.items():
        for m in mm:
            if m[0] == 'head':
                L = eng.loops[m[1]]
                e0 = L.entry.get(m[2])
                if e0 is not None:
                    ok = True if e0 == NONE else (False if is_c(e0) else None)
                    if e0[0] == 'attr' and e0[1] == ('sym', fi.args[0] if fi.args else ''):
                        note(cx, fi, e0, X)
                    else:
                        rep.check(ok, 'reset', fi.loc(L.node), 'what is remembered for %s starts as %s' % (X, show(e0)))
            elif m[0] == 'attr':
                note(cx, fi, m, X)
    if 'state' in names:
        states(cx, fi, eng, us, ms)


def remembered(e, O, group, varies):
    """(True/False/None, why): finding the values of the group equal means that the operand is in force;
    (None, None) when the group says nothing about the operand"""
    terms = [e.canon(t) for _, hs in O for t in hs]
    lit = [c for c in group if operand_in(O, c[0])]
    if lit:
        group = lit[:1]
    elif varies:
        return None, None
    elif terms:
        toks = set()
        for W, y, m in group:
            toks |= tokens(W)
        if not all(determined(t, toks) for t in terms):
            return None, None
    else:
        n = num_of(O)
        if n is None or not any(same(W, C(n), e) is True for W, y, m in group):
            return None, None
    best, why = True, ''
    for W, y, m in group:
        r = same(W, subst(y, lambda x: e.newval(x) if x in m else None), e)
        if any(e.newval(k) == k for k in m):
            r = False
        if r is not True:
            mt = [e.newval(k) for k in m]
            if r is False and any(e.canon(k) in terms for k in mt):
                r = None
            why = 'after emitting it, %s is remembered instead of %s' % (', '.join(show(k)[:60] for k in mt), show(W)[:60])
            best = r if best is True else (False if r is False else best)
    return best, why


def note(cx, fi, m, X):
    cx.memory.setdefault((fi.cls.name, m[2]), set()).add(X)


def num_of(O):
    """the number a constant operand list stands for"""
    if len(O) == 1 and not O[0][1]:
        try:
            v = float(O[0][0])
            return int(v) if v == int(v) else v
        except ValueError:
            return None
    return None


def relevant(t, a):
    return contains(t, a)


def states(cx, fi, eng, us, ms):
    rep, prog = cx.rep, cx.prog
    for u in us:
        calls = [s[2] for s in u.setters() if s[1] == 'state']
        for c in calls:
            recv = c[2][0]
            arg = c[2][1] if len(c[2]) > 1 else (c[3][0][1] if c[3] else None)
            if arg is None:
                continue
            m = arg if arg[0] == 'attr' and arg[1] == ('sym', fi.args[0]) or arg[0] == 'head' else None
            if arg == NONE:
                mm = [k for k in ms if k[0] == 'attr' and (fi.cls.name, k[2]) in cx.memory]
                rep.ok('skip', fi.loc())
                continue
            if m is None:
                rep.check(None if arg[0] in ('sym', 'unk', 'out') else False, 'skip', fi.loc(),
                          'the text state is compared with %s, which is not what was emitted last' % show(arg))
                continue
            if m[0] == 'attr':
                note(cx, fi, m, 'state')
            new = u.newval(m)
            if new == m:
                rep.check(started(cx, fi, eng, u, m), 'remember', fi.loc(),
                          'the text state of %s is emitted, but not remembered in %s' % (show(recv), show(m)))
            elif new == NONE:
                rep.ok('remember', fi.loc())
            else:
                rep.check(same(new, recv, u), 'remember', fi.loc(), '%s is remembered after emitting the text state of %s' % (show(new), show(recv)))
        if not calls and any(d[1] == 'T' for d in u.draws()):
            ok = None
            if not any(i[0] == 'star' for i in u.items):
                ok = any(any(has(y, k) for k in ms) for a, b in eqs(u) for x, y in ((a, b), (b, a)) if not is_c(x))
            rep.check(ok, 'skip', fi.loc(), 'text is shown without comparing its state with the last one')


def started(cx, fi, eng, u, m):
    """nothing has been remembered yet when the flag tested on this path still has its first value"""
    prog = cx.prog
    self_ = ('sym', fi.args[0])
    for f, v in u.facts.items():
        if not (isinstance(f, tuple) and f[0] == 'truthy' and f[1][0] == 'attr' and f[1][1] == self_ and v is False):
            continue
        flag = f[1][2]
        # every function that remembers something is only called from here, or from functions that set the flag
        first = [g for g in prog.all_functions() if g.cls is not None and fi.cls in prog.mro(g.cls) + [g.cls] and
                 any(a == flag and isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is False
                     for n, bt, a, how in mutations(prog, g))]
        if not first:
            return None
        for g in first:
            if g.name == '__init__':
                continue
            if not any(a == m[2] and isinstance(n, ast.Assign) and none_value(n, m[2]) for n, bt, a, how in mutations(prog, g)):
                return False
        return True
    return False


def none_value(n, attr):
    return isinstance(n.value, ast.Constant) and n.value.value is None


def resets(cx):
    prog, rep = cx.prog, cx.rep
    for (cn, attr), X in sorted(cx.memory.items()):
        k = 0
        for f in prog.all_functions():
            if f.cls is None or prog.classes.get(cn) is None or not (prog.cls(cn) in prog.mro(f.cls)):
                continue
            text = {}
            for n, bt, a, how in mutations(prog, f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value == '' and a in ('text', 'graphics'):
                    text[a] = n
            if not text:
                continue
            eng = Engine(prog)
            for p in eng.analyse(f):
                if p.raised:
                    continue
                k += 1
                v = p.attr(('sym', f.args[0]), attr)
                rep.check(False if v is None else (True if v == NONE else (False if is_c(v) else None)), 'reset', f.loc(),
                          'a new block of contents starts with %s still remembered in self.%s (%s)' % (
                              'an old value' if v is None else show(v), attr, ', '.join(sorted(X))))
            rep.functions |= eng.analysed
        rep.count('block starts', k)


def compare(cx):
    """PDFState.compare: what is skipped is equal in both states"""
    prog, rep = cx.prog, cx.rep
    fi = prog.func('PDFState.compare')
    other = ('sym', fi.args[1])
    self_ = ('sym', fi.args[0])
    eng = Engine(prog)
    eng.nomerge = True
    parts = eng.analyse(fi)
    rep.functions |= eng.analysed
    colorp = colorp_for(prog, eng)
    us = []
    for p in parts:
        if p.raised or p.ret is None:
            continue
        u = Unit(fi, cat_parts(p.ret) if p.ret[0] == 'cat' or is_c(p.ret) else (('hole', p.ret, ''),), p.facts, None,
                 lambda m: m, canon_for(lambda x, p=p: obj_attrs(p.state, x)), None, p.where())
        u.items = items_of(u.parts, colorp)
        us.append(u)
    names = {s[1] for u in us for s in u.setters()}
    derived = state_init(prog, rep)
    for X in sorted(names):
        emit = [u for u in us if any(s[1] == X for s in u.setters())]
        O = [s for s in emit[0].setters() if s[1] == X][-1][2]
        terms = [t for _, hs in O for t in hs]
        for u in us:
            if u in emit:
                rep.ok('skip', fi.loc() + ' ' + X)
                continue
            if u.facts.get(('isnone', other)) is True:
                rep.bad('skip', fi.loc(), '%s is left out at the start of a block' % X)
                continue
            E = set()
            odd = False
            for a, b in eqs(u):
                for x, y in ((a, b), (b, a)):
                    if contains(x, self_) and contains(y, other) and subst(y, lambda t: self_ if t == other else None) == x:
                        E |= tokens(x)
                    elif contains(x, self_) and contains(y, other):
                        odd = True
                if (a, b) in ((self_, other), (other, self_)):
                    E.add(self_)
            ok = all(covered(t, E, self_, derived) for t in terms)
            rep.check(True if ok else (None if odd else False), 'skip', fi.loc(),
                      '%s is left out although %s may differ from what was emitted last' % (
                          X, ', '.join(show(t) for t in terms if not covered(t, E, self_, derived))))
        rep.count('state operators', 1)


def state_init(prog, rep):
    """attributes that are functions of other attributes: attr -> set of attributes"""
    out = {}
    f = prog.func('PDFState.__init__')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.name == 'get_font'})
    self_ = ('sym', f.args[0])
    per = []
    for p in eng.analyse(f):
        if p.raised:
            continue
        vals = {}
        for ev, stk in all_events(p.trace):
            if ev.kind == 'write' and ev.a[0] == self_:
                vals[ev.a[1]] = ev.a[2]
        deps = {}
        for a, v in vals.items():
            if v[0] == 'call' and v[1].split('.')[-1] == 'get_font':
                args = list(v[2][1:]) + [x for _, x in v[3]]
                names = []
                for x in args:
                    names.append(next((b for b, w in vals.items() if w == x and b != a), None) if not is_c(x) or True else None)
                if all(n is not None for n in names):
                    deps[a] = frozenset(names)
        per.append(deps)
    for a in set().union(*[set(d) for d in per]) if per else ():
        if all(a in d for d in per):
            out[a] = set().union(*[d[a] for d in per])
    rep.functions |= eng.analysed
    return out


def covered(t, E, self_, derived):
    if t in E or self_ in E or is_c(t):
        return True
    if t[0] == 'fn':
        return all(covered(x, E, self_, derived) for x in t[2])
    if t[0] == 'poly':
        return all(covered(a, E, self_, derived) for m in to_poly(t) for a, e in m)
    if t[0] == 'attr':
        if t[1] == self_:
            d = derived.get(t[2])
            return d is not None and all(('attr', self_, n, 0) in E for n in d)
        return covered(t[1], E, self_, derived)
    if t[0] == 'call':
        return covered(t[2][0], E, self_, derived) if t[2] and t[1].split('.')[-1] in ('ref', '__str__') else False
    return False


def equality(cx):
    """colours that compare equal are written the same"""
    prog, rep = cx.prog, cx.rep
    ci = prog.cls('PDFColor')
    st = prog.func('PDFColor.__str__')
    self_ = ('sym', st.args[0])
    eng = Engine(prog)
    read = set()
    for p in eng.analyse(st):
        terms = [p.ret] if p.ret is not None else []
        for t in terms + [f for f in p.facts if isinstance(f, tuple)]:
            for x in subterms(t):
                if x[0] == 'attr' and x[1] == self_:
                    read.add(x[2])
    rep.functions |= eng.analysed
    for name, sense in (('__eq__', True), ('__ne__', False)):
        f = ci.methods.get(name)
        if f is None:
            if name == '__eq__':
                rep.bad('equal', st.loc(), 'colours are compared by identity')
            continue
        eng = Engine(prog)
        eng.nomerge = True
        me, other = ('sym', f.args[0]), ('sym', f.args[1])
        for p in eng.analyse(f):
            if p.raised or p.ret is None:
                continue
            known = set()
            for k, v in p.facts.items():
                if v is True and isinstance(k, tuple) and k[0] == 'eq':
                    known |= pairs(k[1], k[2], me, other)
            if p.facts.get(('isnone', other)) is True:
                continue
            r = p.ret
            if is_c(r):
                if bool(r[2]) != sense:
                    continue
            else:
                k = r
                if sense and k[0] == 'eq':
                    known |= pairs(k[1], k[2], me, other)
                elif sense and k[0] == 'and':
                    for y in k[1:]:
                        if is_term(y) and y[0] == 'eq':
                            known |= pairs(y[1], y[2], me, other)
                elif k[0] not in ('eq', 'not', 'and', 'or', 'call', 'unk', 'attr', 'fn', 'is'):
                    rep.unk('equal', f.loc(), 'comparison result %s' % show(r))
                    continue
                elif k[0] != 'eq':
                    rep.unk('equal', f.loc(), 'comparison result %s' % show(r)[:80])
                    continue
            miss = read - known
            rep.check(not miss, 'equal', f.loc(), 'colours are treated as equal although their %s may differ' % ' and '.join(sorted(miss)))
        rep.functions |= eng.analysed


def pairs(a, b, me, other):
    out = set()
    if a[0] in ('tuple', 'list') and b[0] == a[0] and isinstance(a[1], tuple) and isinstance(b[1], tuple) and len(a[1]) == len(b[1]):
        for x, y in zip(a[1], b[1]):
            out |= pairs(x, y, me, other)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'attr' and x[1] == me and y[0] == 'attr' and y[1] == other and x[2] == y[2]:
            out.add(x[2])
    return out
