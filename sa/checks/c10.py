"""C10: the outline tree.  The function that makes the outline items is evaluated with a generic item; the effects of every
path of an iteration (objects made, entries set, recursion) are compared with those a doubly linked list of siblings needs."""
from .common import *
from .objs import *
from .c08 import focus, conds, same_obj
from ..access import all_mutations
from ..flow import reach

TECHNIQUE = ('value-flow analysis of the loop over outline items: on every path of a generic iteration one item is made with its '
             'own title, destination and parent, linked to the remembered previous item in both directions, its children built '
             'below it one level deeper and counted; entries of the parent set on the first iteration and after the last')

SELF = ('sym', 'self')
OUTL = ('attr', SELF, 'outlines', 0)


def run(prog, rep):
    rep.rule('item', 'every iteration makes one item with the title, destination and parent of that outline')
    rep.rule('siblings', 'consecutive items are linked in both directions; the links use the item made in the preceding iteration')
    rep.rule('ends', 'the parent gets First on the first iteration only and Last from the last item')
    rep.rule('children', 'children are built below their own item, one level deeper, whenever there are any')
    rep.rule('count', 'an item below the open level has a negative count, an open one the number of items visible below it')
    rep.rule('root', 'the catalogue refers to the object all top items belong to')
    rep.rule('collect', 'every outline declared in a paragraph is kept once, in order, at its level')
    rep.section('items', build, prog, rep)
    rep.section('collect', collect, prog, rep)


def build(prog, rep):
    out = prog.func('PDF.output')
    eng = Engine(prog, opaque=focus(prog, out, {'Title', 'Outlines', 'First', 'Last'}))
    parts = eng.analyse(out)
    rep.functions |= eng.analysed
    n = 0
    for p in parts:
        if p.raised:
            continue
        loops = item_loops(eng, p.trace)
        empty = p.facts.get(('truthy', OUTL)) is False
        n += 1
        if not loops:
            if empty:
                rep.ok('item', out.loc())
            elif any(e.kind == 'call' and 'outline' in e.a[0].lower() for e, _ in all_events(p.trace)):
                rep.unk('item', out.loc(), 'construction of the outlines is not followed')
            else:
                rep.bad('item', out.loc(), 'no outline item is made on the path where %s' % (p.where() or 'always'))
            continue
        for L in loops:
            level(prog, rep, eng, L, p, top=True)
        root(prog, rep, eng, p, loops[0], out)
    rep.count('paths of output', n)


def bobj(eng, s, b):
    o = base_obj(eng, s, b)
    if o[0] == 'dict':
        for e in s.trace:
            if e.kind == 'write' and e.a[1] == 'value' and e.a[2] == b:
                return e.a[0]
    return o


NOENT = ('sym', '$none')


def ent(eng, s, own, o, key):
    """last value given to entry `key` of object o made among the events"""
    v = NOENT
    d = None
    for e in own:
        if e.kind == 'write' and e.a[0] == o and e.a[1] == 'value':
            d = e.a[2]
            for l in s.heap.get(('D', d[1]), ()) if d[0] == 'dict' else ():
                if l[0] == 'kv' and l[1] == C(key):
                    v = l[2]
        elif e.kind == 'setitem' and e.a[1] == C(key) and (e.a[0] == d and d is not None or bobj(eng, s, e.a[0]) == o):
            v = e.a[2]
    return v


def obj_by_ref(eng, s, traces, t):
    o = obj_of_id(eng, s, t)
    if o is not None:
        return o
    for tr in traces:
        for e, _ in all_events(tr):
            if e.kind == 'write' and e.a[1] == 'id' and e.a[2] == t:
                return e.a[0]
    return None


def new_items(eng, s, own):
    """objects made on this path that carry a Title"""
    return [(e, e.a[0]) for e in own if e.kind == 'new' and e.a[1] == 'PDFObject' and ent(eng, s, own, e.a[0], 'Title') != NOENT]


def item_loops(eng, trace):
    r = []
    for ev in trace:
        if ev.kind == 'loop':
            L = ev.a[0]
            if any(new_items(eng, s, plain_events(s.trace[s.base:])) for s, _ in L.parts):
                r.append(L)
            else:
                for s, _ in L.parts:
                    r.extend(item_loops(eng, s.trace[s.base:]))
    return r


def element(L):
    sp = L.space
    if sp is None:
        return None, None
    while sp[0] == 'enumerate':
        sp = sp[1]
    if sp[0] == 'reversed' or sp[0] == 'fn' and sp[1] in ('reversed', 'sorted', 'set', 'frozenset'):
        return sp, False
    if sp[0] == 'slice':
        return sp, False
    return sp, True


def ref_of(eng, s, o, t):
    """t is the reference of object o"""
    if t is None:
        return False
    if any(e.kind == 'write' and e.a[0] == o and e.a[1] == 'id' and e.a[2] == t for e in s.trace):
        return True
    return t == s.heap.get(('a', o, 'id')) or (t[0] == 'attr' and t[2] == 'id' and same_obj(t[1], o))


def sets(eng, s, own, key):
    return [(e, bobj(eng, s, e.a[0]), e.a[2]) for e in own if e.kind == 'setitem' and e.a[1] == C(key)]


def is_first(s, hs):
    """True/False/None: the path is taken on the first iteration"""
    for f, b in s.facts.items():
        for h in hs:
            if f == ('isnone', h):
                return b
            if f == ('truthy', h):
                return not b
    return None


def counter_first(L, s):
    z = ('ind', L.id)
    for f, b in s.facts.items():
        if f[0] == 'eq' and z in (f[1:] + tuple()) and C(0) in f[1:]:
            return b
        if f == ('truthy', z):
            return not b
        if f[0] == 'lt0' and contains(f, z):
            d = f[1]
            if d == p_neg(z):           # -i < 0
                return not b
            if d == p_sub(z, C(1)):
                return b
    return None


def level(prog, rep, eng, L, p, top):
    fi, where = L.fi, L.fi.loc(L.node)
    space, ordered = element(L)
    if ordered is False:
        rep.bad('item', where, 'outlines are not visited in order: %s' % show(L.space))
        return
    if ordered is None or L.kind != 'for':
        rep.unk('item', where, 'loop form not recognised')
        return
    el = ('idx', space, L.ind)
    # remembered item of the preceding iteration: a variable that starts as None and becomes the item made, on every path
    heads = []
    for loc, h in L.head.items():
        if loc[0] in ('env', 'a') and L.entry.get(loc) == NONE:
            vals = []
            for s in L.back():
                vals.append((eng.get_loc(s, loc), [o for _, o in new_items(eng, s, plain_events(s.trace[s.base:]))]))
            if vals and all(len(os) == 1 and v == os[0] for v, os in vals):
                heads.append((loc, h))
    hs = [h for _, h in heads]
    stale = [h for loc, h in L.head.items() if loc[0] in ('env', 'a') and L.entry.get(loc) == NONE and h not in hs]
    parent = None
    first_set = last_set = 0
    for s, sig in L.parts:
        if sig is not None and sig[0] == 'raise':
            continue
        own = s.trace[s.base:]
        ev = plain_events(own)
        its = new_items(eng, s, ev)
        if sig == 'break':
            rep.bad('item', where, 'the outlines are not all visited: the loop stops where %s' % conds(s, L))
        if len(its) != 1:
            if not its:
                rep.bad('item', where, 'no item is made for an outline where %s' % conds(s, L))
            else:
                rep.bad('item', its[1][0].loc, '%d items are made for one outline' % len(its))
            continue
        e, o = its[0]
        for key, src in (('Title', 'text'), ('Dest', 'label')):
            v = ent(eng, s, ev, o, key)
            want = [('idx', el, C(src)), ('get', el, C(src), NONE)]
            if v in want or (v[0] == 'get' and v[1:3] == (el, C(src))):
                rep.ok('item', e.loc)
            elif v == NOENT:
                rep.bad('item', e.loc, 'the item has no %s' % key)
            elif contains(v, el) or is_known(v):
                rep.bad('item', e.loc, '%s of the item is %s' % (key, show(v)))
            else:
                rep.unk('item', e.loc, '%s of the item is %s' % (key, show(v)))
        pv = ent(eng, s, ev, o, 'Parent')
        po = obj_by_ref(eng, s, (p.trace,), pv) if pv != NOENT else None
        if pv == NOENT:
            rep.bad('item', e.loc, 'the item has no Parent')
        elif po is None:
            rep.unk('item', e.loc, 'Parent is %s' % show(pv))
        elif po == o or po in hs:
            rep.bad('item', e.loc, 'Parent of the item is %s' % ('the item itself' if po == o else 'the previous item'))
        else:
            parent = po if parent is None else parent
            rep.check(same_obj(po, parent), 'item', e.loc, 'Parent is %s on one path and %s on another' % (show(po), show(parent)))
        # links
        first = is_first(s, hs)
        if first is None:
            first = counter_first(L, s)
        if first is None and stale and is_first(s, stale) is not None and any(sets(eng, s, ev, k) for k in ('Prev', 'Next')):
            rep.bad('siblings', where, 'the item linked to is not the one made in the preceding iteration on every path: %s' % conds(s, L))
            continue
        prevs = [x for x in sets(eng, s, ev, 'Prev')]
        pent = ent(eng, s, ev, o, 'Prev')
        nexts = sets(eng, s, ev, 'Next')
        firsts = [x for x in sets(eng, s, ev, 'First') if parent is not None and same_obj(x[1], parent)]
        lasts = [x for x in sets(eng, s, ev, 'Last') if parent is not None and same_obj(x[1], parent)]
        if first is None and not (prevs or nexts or firsts or pent != NOENT):
            first = 'none'
        if first == 'none':
            pass
        elif first is None:
            rep.unk('siblings', e.loc, 'first iteration not recognised where %s' % conds(s, L))
        elif first:
            for x in prevs + nexts:
                rep.bad('siblings', x[0].loc, 'a sibling link is set for the first item')
            if pent != NOENT and not prevs:
                rep.bad('siblings', e.loc, 'the first item has a previous one')
            if firsts:
                first_set += 1
                rep.check(ref_of(eng, s, o, firsts[0][2]), 'ends', firsts[0][0].loc, 'First of the parent is %s' % show(firsts[0][2]))
            else:
                other = entry(eng, s, parent, 'First') if parent is not None else NOENT
                rep.bad('ends', e.loc, 'First of the parent is not set in the first iteration where %s' % conds(s, L)) if parent is not None and not first_elsewhere(eng, L, p, parent) else None
        else:
            for x in firsts:
                rep.bad('ends', x[0].loc, 'First of the parent is set again by a later item')
            pr = pent
            if pr == NOENT:
                rep.bad('siblings', e.loc, 'an item after the first has no link to the previous one where %s' % conds(s, L))
            else:
                ok = any(ref_of(eng, s, h, pr) for h in hs)
                rep.check(True if ok else (False if ref_of(eng, s, o, pr) or (parent is not None and ref_of(eng, s, parent, pr)) or any(ref_of(eng, s, h, pr) for h in stale) else None),
                          'siblings', e.loc, 'Prev is %s' % show(pr))
            if not nexts:
                rep.bad('siblings', e.loc, 'the previous item gets no link to the next one where %s' % conds(s, L))
            for x in nexts:
                good = x[1] in hs or any(same_obj(x[1], h) for h in hs)
                rep.check(True if good and ref_of(eng, s, o, x[2]) else (False if good or same_obj(x[1], o) or x[1] in stale else None), 'siblings', x[0].loc,
                          'Next of %s is %s' % (show(x[1]), show(x[2])))
        if lasts:
            last_set += 1
            rep.check(ref_of(eng, s, o, lasts[-1][2]) or None, 'ends', lasts[-1][0].loc, 'Last of the parent is %s' % show(lasts[-1][2]))
        children(prog, rep, eng, L, s, ev, el, o, e, p, sig, top)
    # last
    back = [s for s in L.back()]
    if parent is not None and back:
        if last_set and last_set == len(back):
            rep.ok('ends', where)
        elif last_set:
            rep.bad('ends', where, 'Last of the parent is only set on some paths of the iteration')
        else:
            last_after(rep, eng, L, p, parent, where)


def events_after(trace, L):
    """events that follow loop L in the trace it belongs to"""
    for i, ev in enumerate(trace):
        if ev.kind == 'loop':
            if ev.a[0] is L or ev.a[0].id == L.id:
                return trace[i + 1:]
            for s, _ in ev.a[0].parts:
                r = events_after(s.trace[s.base:], L)
                if r is not None:
                    return r
    return None


def first_elsewhere(eng, L, p, parent):
    return any(e.kind == 'setitem' and e.a[1] == C('First') and same_obj(bobj(eng, p.state, e.a[0]), parent)
               for e in p.trace if e.kind != 'loop')


def last_after(rep, eng, L, p, parent, where):
    after = events_after(p.trace, L)
    if after is None:
        return
    xs = [e for e in after if e.kind == 'setitem' and e.a[1] == C('Last') and same_obj(bobj(eng, p.state, e.a[0]), parent)]
    if not xs:
        rep.bad('ends', where, 'Last of the parent is never set')
        return
    e = xs[-1]
    v = e.a[2]
    o = obj_by_ref(eng, p.state, (p.trace,), v)
    if o is not None and o[0] == 'out' and o[1] == L.id:
        loc = o[2]
        ok = True
        for s in L.back():
            its = new_items(eng, s, plain_events(s.trace[s.base:]))
            if len(its) != 1 or eng.get_loc(s, loc) != its[0][1]:
                ok = False
        rep.check(ok, 'ends', e.loc, 'Last of the parent is not always the item made last')
    elif o is not None and o[0] == 'obj' and o != parent:
        rep.ok('ends', e.loc)
    elif o is not None and (o == parent or o[0] == 'sym'):
        rep.bad('ends', e.loc, 'Last of the parent is %s' % show(v))
    else:
        rep.unk('ends', e.loc, 'Last of the parent is %s' % show(v))


def kids_of(t, el):
    return (t[0] == 'get' and t[1] == el and t[2] == C('children')) or t == ('idx', el, C('children')) or \
        (t[0] == 'fn' and t[1] == 'or' and any(kids_of(x, el) for x in t[2]))


def sub_calls(prog, ev, el):
    r = []
    for e in ev:
        if e.kind == 'call':
            qual, recv, args, t = e.a
            for n, a in args:
                if a[0] in ('get', 'idx', 'fn') and kids_of(a, el):
                    r.append((e, qual, dict(args), n, t))
    return r


def level_param(prog, rep):
    return None


def children(prog, rep, eng, L, s, ev, el, o, e0, p, sig, top):
    kids = None
    for f, b in s.facts.items():
        if f[0] == 'truthy' and kids_of(f[1], el):
            kids = b
        if f[0] == 'in' and f[1] == C('children') and f[2] == el and b is False:
            kids = False
    calls = sub_calls(prog, ev, el)
    where = e0.loc
    if len(calls) > 1:
        rep.bad('children', calls[1][0].loc, 'children are built twice')
        return
    if not calls:
        if kids is False:
            rep.ok('children', where)
            c = ent(eng, s, ev, o, 'Count')
            if c != NOENT and is_c(c) and c[2] not in (0,):
                rep.bad('count', where, 'an item without children has Count %s' % show(c))
            judge_total(rep, eng, L, s, C(1), p, where)
        elif kids is True or (kid_bound(eng, s, el) or 0) >= 1 or not any(contains(f, el) for f in s.facts):
            rep.bad('children', where, 'children of an item are not built where %s' % conds(s, L))
        else:
            rep.unk('children', where, 'children are not built where %s' % conds(s, L))
        return
    e, qual, args, lname, t = calls[0]
    pa = [(n, a) for n, a in args.items() if a == o or (a[0] == 'attr' and a[1] == o)]
    objs = [(n, a) for n, a in args.items() if a[0] == 'obj' or a in (L.head.values()) or (a[0] == 'attr' and a[2] == 'id')]
    if pa:
        rep.ok('children', e.loc)
    elif objs or any(a[0] == 'sym' and n.startswith('parent') for n, a in args.items()):
        rep.bad('children', e.loc, 'children are built below %s, not below their own item' % show((objs or [(0, args.get('parent', C(0)))])[0][1]))
        return
    else:
        rep.unk('children', e.loc, 'parent of the children not recognised')
    # level: the numeric parameter compared
    g = prog.func(qual)
    lv = [(n, a) for n, a in args.items() if n != lname and (n, a) not in pa and a[0] in ('poly', 'attr', 'sym', 'c') and a != SELF]
    mine = None
    levels = {}
    for n, a in lv:
        # value of the same parameter here
        here = param_here(prog, eng, L, s, n, g, p)
        levels[n] = here
        if here is None:
            continue
        d = differ(p_sub(here, C(1)), a)
        rep.check(True if d else False if d is False or d is None and is_known(a) and is_known(here) else None, 'children', e.loc,
                  'children of level %s are built with level %s' % (show(here), show(a)))
        mine = here
        want = ('attr', SELF, 'outlines_level', 0)
        if top and contains(here, want):
            rep.check(here == want, 'children', L.fi.loc(L.node), 'the top items are built as if %s levels were to be shown' % show(here))
    c = ent(eng, s, ev, o, 'Count')
    open_ = None
    if c == NOENT:
        rep.bad('count', e.loc, 'an item with children has no Count where %s' % conds(s, L))
    elif c == t:
        open_ = True
    elif is_c(c):
        open_ = c[2] > 0
    elif c == p_neg(t):
        open_ = False
    if c == eng.len_of(args[lname], s):
        rep.bad('count', e.loc, 'Count of an item is the number of its children, not of the items visible below it')
    elif c != NOENT and open_ is None:
        rep.unk('count', e.loc, 'Count of an item with children is %s' % show(c))
    if open_ is not None and mine is not None:
        lo, hi = bounds(s, mine)
        if open_ and (lo is not None and lo >= 2) or not open_ and (hi is not None and hi <= 1):
            rep.ok('count', e.loc)
        elif lo is not None or hi is not None or True:
            rep.bad('count', e.loc, 'an item is written %s where the levels to show are %s' % (
                'open' if open_ else 'closed', 'at least %s' % lo if lo is not None else 'at most %s' % hi if hi is not None else 'any'))
    if open_ is True and c != t:
        rep.bad('count', e.loc, 'Count of an open item is %s' % show(c))
    if open_ is not None:
        judge_total(rep, eng, L, s, p_add(C(1), t) if open_ else C(1), p, e.loc)


def param_here(prog, eng, L, s, name, g, p):
    """the value parameter `name` of g has in the activation the loop runs in"""
    if L.fi is g:
        v = s.env.get(name)
        if v is not None:
            return v
    return s.env.get(name)


def bounds(s, x):
    lo = hi = None
    for f, b in s.facts.items():
        if f[0] != 'lt0':
            continue
        for sign in (1, -1):
            k = poly_const(p_sub(f[1], x if sign == 1 else p_neg(x)))
            if k is None:
                continue
            # sign*x + k < 0 is b
            if sign == 1:
                if b:
                    hi = -k - 1          # x <= -k-1
                else:
                    lo = -k
            else:
                if b:
                    lo = k + 1           # x > k
                else:
                    hi = k
    for f, b in s.facts.items():
        if f[0] == 'eq' and b and x in f[1:]:
            o = [y for y in f[1:] if y != x]
            if o and is_c(o[0]):
                lo = hi = o[0][2]
    return lo, hi


def kid_bound(eng, s, el):
    for f in s.facts:
        if f[0] in ('lt0', 'eq'):
            for x in subterms(f):
                if x[0] == 'fn' and x[1] == 'len' and kids_of(x[2][0], el):
                    return bounds(s, x)[1]
    return None


def judge_total(rep, eng, L, s, want, p, where):
    """the counter the function returns grows by `want`"""
    locs = [loc for loc in L.head if loc[0] == 'env' and L.entry.get(loc) == C(0)]
    for loc in locs:
        if not returned(eng, L, loc, p):
            continue
        v = eng.get_loc(s, loc)
        d = p_sub(v, L.head[loc])
        if d == want:
            rep.ok('count', where)
        else:
            rep.check(False if is_known(d) else None, 'count', where, 'the number of visible items grows by %s instead of %s' % (show(d), show(want)))


def returned(eng, L, loc, p):
    t = ('out', L.id, loc)
    for k, v in p.heap.items():
        if v == t or (k[0] == 'D' and any(l[0] == 'kv' and l[2] == t for l in v)):
            return True
    return False


def open_paths(s):
    res = {e.a[3] for e in s.trace[s.base:] if e.kind == 'call'}
    return any(e.kind == 'setitem' and e.a[1] == C('Count') and e.a[2] in res for e in s.trace[s.base:])


def root(prog, rep, eng, p, L, out):
    par = None
    for s in L.back():
        its = new_items(eng, s, plain_events(s.trace[s.base:]))
        if its:
            po = obj_by_ref(eng, s, (p.trace,), ent(eng, s, plain_events(s.trace[s.base:]), its[0][1], 'Parent'))
            par = po or par
    if par is None:
        return
    r = ('attr', SELF, 'root', 0)
    xs = [e for e, stk in all_events(p.trace) if e.kind == 'setitem' and e.a[1] == C('Outlines') and bobj(eng, p.state, e.a[0]) == r]
    if not xs:
        rep.bad('root', out.loc(), 'outline items are made but the catalogue gets no Outlines where %s' % (p.where() or 'always'))
        return
    o = obj_by_ref(eng, p.state, (p.trace,), xs[-1].a[2])
    rep.check(True if o is not None and same_obj(o, par) else False if o is not None else None, 'root', xs[-1].loc,
              'Outlines of the catalogue is %s, the top items belong to %s' % (show(xs[-1].a[2]), show(par)))
    space, _ = element(L)
    rep.check(True if space == OUTL else None, 'root', xs[-1].loc, 'top items come from %s' % (show(space) if space else None))
    c = ent(eng, p.state, [e for e, _ in all_events(p.trace)], par, 'Count')
    if c != NOENT:
        if c[0] == 'out' and c[1] == L.id:
            rep.ok('count', out.loc())
        elif c == eng.len_of(OUTL, p.state) and any(open_paths(s) for s in L.back()):
            rep.bad('count', out.loc(), 'Count of the outlines is their number although items below open ones are visible too')
        elif is_c(c):
            rep.bad('count', out.loc(), 'Count of the outlines is always %s' % show(c))
        else:
            rep.unk('count', out.loc(), 'Count of the outlines is %s' % show(c))


# ---------------------------------------------------------------- collection
PREFIX = '$outline:'


def collect(prog, rep):
    # writes to the attribute
    for fi, node, bt, attr, how in all_mutations(prog):
        if attr in ('outlines',) and bt in ('PDF', None):
            where = fi.loc(node)
            if how in ('append', 'extend') or how == 'assign' and fi.name == '__init__':
                rep.ok('collect', where)
            elif how in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'del', 'delitem', 'assign'):
                rep.bad('collect', where, 'the outlines declared are changed by %s' % how)
            else:
                rep.unk('collect', where, 'the outlines are changed by %s' % how)
    # consumers of the ids
    import ast
    n = 0
    consumers = [f for f in prog.all_functions() if mentions(f, {PREFIX}) and f.cls is not None and f.cls.name == 'PDF']
    for fi in consumers:
        top = entry_fn(prog, fi)
        opq = {g.qual for g in reach(prog, top) if g is not top and not (({g} | reach(prog, g)) & set(consumers))} - {'PDF._used_font'}
        eng = Engine(prog, opaque=opq | {g.qual for g in reach(prog, fi) if g is not fi and not mentions(g, {'children', 'level'})})
        eng.nomerge = True
        for p in eng.analyse(fi):
            if p.raised:
                continue
            for s, own, path in leaf_paths(p):
                key = None
                pos = None
                for f, b in s.facts.items():
                    sw = startswith(f)
                    if sw is not None and sw[1] == PREFIX and not (path and f in path[-1][0].entry_state.facts):
                        key, pos = sw[0], b
                if not pos:
                    continue
                n += 1
                judge_collect(rep, eng, s, own, key, path, fi)
        rep.functions |= eng.analysed
    rep.count('paths that meet an outline declared', n)
    makers(prog, rep)


def entry_fn(prog, fi):
    return fi


def startswith(f):
    """(string, prefix) tested by a fact"""
    if f[0] == 'truthy' and f[1][0] == 'fn' and f[1][1] == 'startswith':
        a = f[1][2]
        if len(a) >= 2 and is_c(a[1]):
            return a[0], a[1][2]
    if f[0] == 'fn' and f[1] == 'startswith' and len(f[2]) >= 2 and is_c(f[2][1]):
        return f[2][0], f[2][1][2]
    if f[0] == 'eq':
        for a, b in ((f[1], f[2]), (f[2], f[1])):
            if a[0] == 'slice' and is_c(b):
                return a[1], b[2]
    return None


def leaf_paths(p):
    seen = []
    for L, s, sig, own, path in walk_parts(p.trace):
        seen.append((s, own, path + ((L, s),)))
    if not seen:
        seen.append((p.state, p.trace, ()))
    return seen


def judge_collect(rep, eng, s, own, key, path, fi):
    seen = None
    for f, b in s.facts.items():
        if f[0] == 'in' and f[1] == key and contains(f[2], ('sym', 'self')):
            seen = (f[2], b)
    evs = own
    apps = [e for e in evs if e.kind == 'append' and is_outline_data(e.a[1], key)]
    where = fi.loc(path[-1][0].node) if path else fi.loc()
    if seen is not None and seen[1]:
        rep.check(not apps, 'collect', where, 'an outline already kept is kept again')
        return
    if len(apps) == 1:
        rep.ok('collect', apps[0].loc)
        if seen is not None:
            marks = [e for e in evs if e.kind in ('append',) and e.a[1] == key or e.kind == 'mut' and e.a[1] == 'add' and e.a[2] == (key,)
                     or e.kind == 'setitem' and e.a[1] == key]
            rep.check(bool(marks) or None, 'collect', apps[0].loc, 'an outline is not remembered: it is kept again for every line of its text')
            if not marks:
                rep.bad('collect', apps[0].loc, 'an outline is kept without being remembered, so it is kept again for every line of its text')
        dest(rep, eng, s, own, apps[0], key)
    elif not apps:
        if any(e.kind == 'call' or e.kind == 'append' and contains(e.a[1], key) and e.a[1] != key for e in evs):
            rep.unk('collect', where, 'outline data not followed')
        else:
            rep.bad('collect', where, 'an outline declared is dropped where %s' % ' and '.join(('' if b else 'not ') + show(f) for f, b in s.facts.items())[:200])
    else:
        rep.bad('collect', apps[1].loc, 'an outline is kept %d times' % len(apps))


def is_outline_data(t, key):
    if t[0] in ('call', 'fn') and 'loads' in str(t[1]):
        for x in subterms(t):
            if x[0] == 'slice' and x[1] == key:
                return True
            if x[0] == 'fn' and x[1] in ('removeprefix', 'replace') and key in subterms(x):
                return True
    return False


def dest(rep, eng, s, own, app, key):
    """slice used starts right after the prefix; the list reached is at the level asked for"""
    for x in subterms(app.a[1]):
        if x[0] == 'slice' and x[1] == key and is_c(x[2]):
            rep.check(x[2] == C(len(PREFIX)), 'collect', app.loc, 'outline data starts at %s' % show(x[2]))
    lst = app.a[0]
    loops = [e.a[0] for e in own if e.kind == 'loop']
    if lst == OUTL or lst[0] == 'attr' and lst[2] == 'outlines':
        if not loops:
            lv = any(contains(f, C('level')) for f in s.facts)
            rep.check(None if lv else False, 'collect', app.loc, 'outlines are kept at the top whatever their level')
        else:
            rep.bad('collect', app.loc, 'outlines are kept at the top whatever their level')
        return
    for L in loops:
        if lst[0] in ('out', 'head') and lst[1] == L.id:
            loc = lst[2]
            ini = L.entry.get(loc)
            rep.check(ini is not None and ini[0] == 'attr' and ini[2] == 'outlines' or None, 'collect', app.loc, 'search for the parent starts from %s' % (show(ini) if ini else None))
            lvl = [x for x in subterms(L.count) if x[0] in ('idx', 'get') and x[2] == C('level')] if L.count else []
            if lvl:
                d = differ(L.count, p_sub(lvl[0], C(1)))
                rep.check(True if d else False if d is False else None, 'collect', app.loc, 'an outline of level %s is kept %s levels below the top' % (show(lvl[0]), show(L.count)))
            h = L.head.get(loc)
            for s2 in L.back():
                v = eng.get_loc(s2, loc)
                good = v is not None and v[0] in ('setdef', 'get', 'idx') and v[2] == C('children') and v[1][0] == 'idx' and v[1][1] == h
                if good:
                    rep.check(v[1][2] == C(-1), 'collect', app.loc, 'an outline is kept below item %s of its level' % show(v[1][2]))
                elif v is not None and v[0] == 'head' and v[2][0] == 'i' and v[2][1][0] == 'idx' and v[2][1][1] == h and v[2][2] == C('children'):
                    rep.check(v[2][1][2] == C(-1), 'collect', app.loc, 'an outline is kept below item %s of its level' % show(v[2][1][2]))
                elif v == h:
                    rep.ok('collect', app.loc)
                else:
                    rep.unk('collect', app.loc, 'next level is %s' % (show(v) if v else None))


def makers(prog, rep):
    """functions that declare an outline: keys written are the keys read"""
    for fi in prog.all_functions():
        if not mentions(fi, {PREFIX, PREFIX + '{}'}) or (fi.cls is not None and fi.cls.name == 'PDF'):
            continue
        import ast
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Dict) and {k.value for k in n.keys if isinstance(k, ast.Constant)} & {'label', 'level', 'text'}:
                ks = {k.value for k in n.keys if isinstance(k, ast.Constant)}
                rep.check(ks >= {'label', 'level', 'text'}, 'collect', fi.loc(n), 'outline data lacks %s' % sorted({'label', 'level', 'text'} - ks))
