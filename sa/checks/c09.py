"""C09: the name tree of destinations.  One generic iteration of the loop that builds a level is evaluated; each of its
paths is checked against what has to happen when a node is opened, filled and closed."""
from .common import *
from .objs import *
from .c08 import focus, conds
from ..access import all_mutations

TECHNIQUE = ('value-flow analysis of a generic iteration of the loop that fills the nodes: on every path the name and its '
             'destination go into the open node, nodes are closed exactly when the next one is opened or the names end, and '
             'limits are the first and last name below; ordering of the names is established at the call')

SELF = ('sym', 'self')
DESTS = ('attr', SELF, 'dests', 0)


def run(prog, rep):
    rep.rule('sorted', 'names reach the tree in sorted order, each with its own destination')
    rep.rule('names', 'every path of an iteration files the name under exactly one node')
    rep.rule('close', 'a node is handed on exactly once, when it is complete')
    rep.rule('limits', 'the limits of a node are the first and last name below it')
    rep.rule('root', 'the catalogue refers to the last node left, and only that one loses its limits')
    rep.rule('dests', 'destinations are not removed once placed')
    rep.section('names', tree, prog, rep)
    rep.section('dests', writes, prog, rep)


def writes(prog, rep):
    n = 0
    for fi, node, bt, attr, how in all_mutations(prog):
        if attr != 'dests' or bt not in ('PDF', None):
            continue
        n += 1
        where = fi.loc(node)
        if how in ('pop', 'popitem', 'clear', 'del', 'delitem'):
            rep.bad('dests', where, 'a destination is removed (%s)' % how)
        elif how == 'assign' and fi.name != '__init__':
            rep.bad('dests', where, 'the destinations are replaced')
        else:
            rep.ok('dests', where)
    rep.count('writes to the destinations', n)


def tree(prog, rep):
    out = prog.func('PDF.output')
    eng = Engine(prog, opaque=focus(prog, out, {'Limits', 'Dests'}))
    eng.nomerge = True
    parts = eng.analyse(out)
    rep.functions |= eng.analysed
    done = set()
    reached = 0
    for p in parts:
        if p.raised:
            continue
        if p.facts.get(('truthy', DESTS)) is False or any(
                f[0] == 'eq' and b and fn('len', DESTS) in f[1:] and C(0) in f[1:] for f, b in p.facts.items()):
            rep.ok('root', out.loc())
            continue
        reached += 1
        level(prog, rep, eng, p, True, out)
    rep.count('paths of output with destinations', reached)


def strip_ver(t):
    return subst(t, lambda x: x[2][0] if x[0] == 'fn' and x[1] == 'ver' else None)


def is_sorted(p, t):
    """(state, why): the sequence t is in ascending order of the names"""
    v = None
    if t[0] == 'fn' and t[1] == 'ver':
        base = t[2][0]
        muts = [e for e, _ in all_events(p.trace) if e.kind == 'mut' and e.a[0] == base]
        if muts and muts[-1].a[1] == 'sort':
            if muts[-1].a[2] == ():
                return True, ''
            return False, 'sorted with %s' % (muts[-1].a[2],)
        return None, 'reordered by %s' % ([e.a[1] for e in muts])
    if t[0] == 'fn' and t[1] == 'sorted':
        if len(t[2]) == 1:
            return True, ''
        kw = {t[2][i][2]: t[2][i + 1] for i in range(1, len(t[2]) - 1, 2) if is_c(t[2][i])}
        if 'key' not in kw and kw.get('reverse') in (C(False), None):
            return True, ''
        return False, 'sorted with %s' % ', '.join(sorted(kw))
    if t[0] == 'fn' and t[1] in ('list', 'tuple'):
        r = is_sorted(p, t[2][0])
        return r if r[0] is not None else (False, 'not sorted') if t[2][0][0] in ('keys', 'fn', 'attr', 'dict') or t[2][0] == DESTS else r
    if t[0] in ('keys', 'items') or t == DESTS:
        return False, 'in the order they were placed'
    if t[0] == 'reversed':
        return False, 'in reversed order'
    return None, 'order of %s not known' % show(t)


def name_of(first, x, ind):
    """classify a value: ('key'|'val'|'lo'|'hi', index term)"""
    return None


def canon(f, b, ind, n):
    """recognised facts of an iteration: ('mod', residue, k) or ('end',) -> bool"""
    if f[0] == 'eq':
        for x, y in ((f[1], f[2]), (f[2], f[1])):
            if y[0] == 'fn' and y[1] == 'mod' and is_c(x) and is_c(y[2][1]):
                k = y[2][1][2]
                d = poly_const(p_sub(p_sub(y[2][0], x), ind))
                if d is not None and isinstance(k, int) and k > 0:
                    return ('mod', int(d) % k, k), b
        if n is not None:
            d = poly_const(p_sub(p_sub(f[1], f[2]), p_sub(p_add(ind, C(1)), n)))
            e = poly_const(p_sub(p_sub(f[2], f[1]), p_sub(p_add(ind, C(1)), n)))
            if d == 0 or e == 0:
                return ('end',), b
    if f[0] == 'truthy' and f[1][0] == 'fn' and f[1][1] == 'mod':
        y = f[1]
        if is_c(y[2][1]):
            k = y[2][1][2]
            d = poly_const(p_sub(y[2][0], ind))
            if d is not None:
                return ('mod', int(d) % k, k), not b
    if f[0] == 'lt0' and n is not None:
        # ind + 1 < n   <=> not end
        if poly_const(p_sub(f[1], p_sub(p_add(ind, C(1)), n))) == 0:
            return ('end',), not b
        if poly_const(p_sub(f[1], p_sub(n, p_add(ind, C(2))))) == 0 or poly_const(p_sub(f[1], p_sub(n, p_add(ind, C(1))))) == 0:
            return (('end',), b) if poly_const(p_sub(f[1], p_sub(n, p_add(ind, C(2))))) == 0 else None
    return None


def level(prog, rep, eng, p, first, fi, KEYS=None, VALS=None, depth=0):
    for L, s, sig, own, path in list(walk_parts(p.trace)):
        pass
    loops = {}
    for L, s, sig, own, path in walk_parts(p.trace):
        loops.setdefault(L.id, (L, []))[1].append((s, sig, own))
    target = None
    for L, ps in loops.values():
        for s, sig, own in ps:
            for e in plain_events(own):
                if e.kind in ('append', 'mut') and listed(eng, s, e, first, KEYS) is not None:
                    target = (L, ps)
    if target is None:
        missing = [e for e, _ in all_events(p.trace) if e.kind == 'call' and e.a[0] != 'PDFBase.output' and mentions(prog.func(e.a[0]), {'Names', 'Limits'})]
        if first and not missing and not any(e.kind == 'setitem' and e.a[1] == C('Dests') for e, _ in all_events(p.trace)):
            rep.bad('root', fi.loc(), 'there are destinations but no name tree is registered where %s' % p.where())
        else:
            rep.unk('names', fi.loc(), 'the loop that files the names was not recognised')
        return
    L, ps = target
    ind, n = L.ind, L.count
    where = L.fi.loc(L.node)
    info = []
    unknown = False
    for s, sig, own in ps:
        if sig is not None and sig[0] == 'raise':
            continue
        if sig == 'break':
            rep.bad('names', where, 'names are left out: the loop stops where %s' % conds(s, L))
        filed, node, keyname = [], None, None
        lim, reg, limreg = {}, [], []
        evs = plain_events(own)
        for e in evs:
            if e.kind in ('append', 'mut'):
                r = listed(eng, s, e, first, KEYS)
                if r is not None:
                    node, keyname = r[0], r[1]
                    filed.extend((e, v) for v in r[2])
        for e in evs:
            if e.kind == 'append':
                o = obj_of_id(eng, s, e.a[1])
                if o is not None and node is not None and same_obj2(eng, s, o, node) and e.a[0][0] == 'list':
                    reg.append((e, e.a[0]))
                if node is not None and e.a[1] == node and e.a[0][0] == 'list':
                    unknown = True
        lv = entry(eng, s, node, 'Limits') if node is not None else None
        opened = node is not None and node[0] == 'obj' and node[2] > L.id
        lo = hi = None
        if lv is not None and lv[0] in ('list', 'tuple'):
            xs = items(eng, s, lv) if lv[0] == 'list' else lv[1]
            if xs is not None and len(xs) == 2:
                lo, hi = xs
        else:
            for e in evs:
                if e.kind == 'setitem' and e.a[1] in (C(0), C(1), C(-1)) and e.a[0][0] in ('idx', 'get') and e.a[0][2] == C('Limits'):
                    if e.a[1] == C(0):
                        lo = e.a[2]
                    else:
                        hi = e.a[2]
        for e in evs:
            if e.kind == 'append' and e.a[0][0] == 'list' and (e.a[1] == lv or (
                    e.a[1][0] in ('idx', 'get') and e.a[1][2] == C('Limits')) or (e.a[1][0] == 'tuple' and (lo, hi) == e.a[1][1])):
                limreg.append((e, e.a[0]))
        facts, alien = {}, []
        for f, b in s.facts.items():
            if f in L.entry_state.facts:
                continue
            c = canon(f, b, ind, n)
            if c is not None:
                facts[c[0]] = c[1]
            elif not (f[0] == 'lt0' and b and n is not None and poly_const(p_sub(f[1], p_sub(ind, n))) == 0):
                alien.append((f, b))
        for a, b in list(facts.items()):
            if a[0] == 'mod' and b:
                for r in range(a[2]):
                    if r != a[1]:
                        facts.setdefault(('mod', r, a[2]), False)
        info.append(dict(s=s, filed=filed, node=node, key=keyname, opened=opened, lo=lo, hi=hi, reg=reg, limreg=limreg,
                         facts=facts, alien=alien, lv=lv, evs=evs))
    # ---- names
    K = None
    for i in info:
        if not i['filed']:
            rep.bad('names', where, 'nothing is filed on the path where %s' % conds(i['s'], L))
            continue
        vals = [v for _, v in i['filed']]
        e = i['filed'][0][0]
        want = 'Names' if first else 'Kids'
        if i['key'] != want:
            rep.bad('names', e.loc, 'entries go under %s of a node, expected %s' % (i['key'], want))
            continue
        if first:
            if len(vals) != 2:
                rep.bad('names', e.loc, '%d values are filed for one name where %s' % (len(vals), conds(i['s'], L)))
                continue
            k, v = vals
            ok = paired(k, v)
            if ok:
                rep.ok('names', e.loc)
                K = strip_idx(k, ind)
            else:
                rep.bad('names', e.loc, 'the name %s is paired with %s' % (show(k), show(v))) if ok is False else \
                    rep.unk('names', e.loc, 'name %s, value %s' % (show(k), show(v)))
        else:
            if vals == [('idx', KEYS, ind)]:
                rep.ok('names', e.loc)
            elif len(vals) != 1:
                rep.bad('names', e.loc, '%d kids are linked for one node' % len(vals))
            else:
                rep.unk('names', e.loc, 'kid %s' % show(vals[0]))
    if first and K is not None:
        seq, comp = K
        okk, why = is_sorted(p, seq)
        rep.check(okk, 'sorted', where, 'names are not in ascending order: ' + why)
        if strip_ver(seq) != seq and False:
            pass
        if n is not None:
            same = differ(n, fn('len', DESTS))
            whole = whole_of(seq)
            rep.check(whole, 'names', where, 'the names filed are %s, not all the destinations' % show(seq))
            d = poly_const(p_sub(n, fn('len', DESTS)))
            rep.check(True if same else (False if d is not None and d < 0 else None), 'names', where, 'the loop files %s names, there are %s' % (
                show(n), show(fn('len', DESTS))))
    if not first and n is not None:
        d = poly_const(p_sub(n, fn('len', KEYS)))
        rep.check(True if d == 0 else (False if d is not None and d < 0 else None), 'names', where, 'the loop links %s of %s nodes' % (
            show(n), show(fn('len', KEYS))))
    # ---- opening, closing
    opens = [i for i in info if i['opened']]
    rest = [i for i in info if not i['opened'] and i['filed']]
    A = None
    if opens and rest:
        cand = [f for f in opens[0]['facts'] if all(i['facts'].get(f) is True for i in opens) and all(i['facts'].get(f) is False for i in rest)]
        A = cand[0] if cand else None
    if not opens:
        if any(i['node'] is not None and i['node'][0] != 'obj' for i in info) and rest:
            rep.unk('close', where, 'where nodes are opened was not recognised')
    every = [i for i in info if i['filed']]
    style = None
    if all(len(i['reg']) == (1 if i['opened'] else 0) for i in every):
        style = 'open'
        for i in every:
            rep.ok('close', where)
    elif A is not None and A[0] == 'mod':
        style = 'close'
        nxt = ('mod', (A[1] + 1) % A[2], A[2])
        # the open condition at i+1: residue of (i + 1) + r
        for i in every:
            a, end = i['facts'].get(nxt), i['facts'].get(('end',))
            closes = len(i['reg'])
            if len(i['reg']) > 1:
                rep.bad('close', i['reg'][1][0].loc, 'a node is handed on twice in one iteration')
                continue
            must = a is True or end is True
            mustnot = a is False and end is False
            loc = i['reg'][0][0].loc if i['reg'] else where
            if must and closes or mustnot and not closes:
                rep.ok('close', loc)
            elif must and not closes:
                rep.bad('close', where, 'a complete node is lost where %s' % conds(i['s'], L))
            elif mustnot and closes:
                rep.bad('close', loc, 'a node is handed on before it is complete, and again later, where %s' % conds(i['s'], L))
            elif i['alien']:
                rep.unk('close', loc, 'closing condition not understood: %s' % conds(i['s'], L))
            elif closes:
                rep.bad('close', loc, 'a node can be handed on although the next name goes into it too: %s' % conds(i['s'], L))
            else:
                rep.bad('close', where, 'the last node can be lost: it is not handed on where %s' % conds(i['s'], L))
    else:
        rep.unk('close', where, 'opening condition not recognised')
    # ---- limits
    for i in every:
        s = i['s']
        lo_want = first_lo(first, i, VALS, ind)
        hi_want = first_hi(first, i, VALS, ind)
        if i['opened']:
            if i['lo'] is None:
                if i['lv'] is not None and i['lv'] == ('sym', '$none'):
                    rep.bad('limits', where, 'a node is made without limits')
                else:
                    rep.unk('limits', where, 'limits %s' % (show(i['lv']) if i['lv'] else None))
            elif lo_want is not None and i['lo'] == lo_want:
                rep.ok('limits', where)
            elif lo_want is not None and simple(i['lo']):
                rep.bad('limits', where, 'the lower limit is %s, the first name below is %s' % (show(i['lo']), show(lo_want)))
            else:
                rep.unk('limits', where, 'lower limit %s' % show(i['lo']))
        elif i['lo'] is not None and i['lv'] is not None and i['lv'][0] not in ('list', 'tuple'):
            rep.bad('limits', where, 'the lower limit is overwritten when the node already has a first name: %s' % show(i['lo']))
        if i['reg'] and style == 'close':
            if i['hi'] is None:
                rep.bad('limits', i['reg'][0][0].loc, 'a node is handed on without its upper limit') if i['lv'] is not None and simple(i['lv']) and all(
                    x['hi'] is None or x['opened'] for x in every) else rep.unk('limits', where, 'upper limit not recognised')
            elif hi_want is not None and i['hi'] == hi_want:
                rep.ok('limits', i['reg'][0][0].loc)
            elif hi_want is not None and simple(i['hi']):
                rep.bad('limits', i['reg'][0][0].loc, 'the upper limit is %s, the last name below is %s' % (show(i['hi']), show(hi_want)))
            else:
                rep.unk('limits', where, 'upper limit %s' % show(i['hi']))
            if len(i['limreg']) == 1:
                rep.ok('limits', i['limreg'][0][0].loc)
            elif not i['limreg']:
                rep.unk('limits', where, 'the limits of the node are not handed on in a way recognised')
            else:
                rep.bad('limits', where, 'the limits are handed on %d times' % len(i['limreg']))
        elif style == 'open' and not i['opened']:
            if i['hi'] is None:
                rep.unk('limits', where, 'upper limit')
            else:
                rep.check(True if i['hi'] == hi_want else (False if simple(i['hi']) and hi_want is not None else None), 'limits', where,
                          'the upper limit becomes %s when %s is filed' % (show(i['hi']), show(hi_want) if hi_want else '?'))
    # ---- what happens to the nodes
    R = {x[1] for i in every for x in i['reg']}
    LR = {x[1] for i in every for x in i['limreg']}
    fate(prog, rep, eng, p, L, every, R, LR, fi, depth)


def simple(t):
    return not any(x[0] in ('call', 'unk', 'out', 'get') for x in subterms(t))


def first_lo(first, i, VALS, ind):
    if first:
        return i['filed'][0][1] if i['filed'] else None
    return ('idx', ('idx', VALS, ind), C(0))


def first_hi(first, i, VALS, ind):
    if first:
        return i['filed'][0][1] if i['filed'] else None
    return ('idx', ('idx', VALS, ind), C(1))


def same_obj2(eng, s, a, b):
    return a == b or (b[0] == 'attr' and b[2] == 'value' and b[1] == a)


def listed(eng, s, e, first, KEYS):
    """(node, key, values) when the event puts entries into a Names / Kids list of a node"""
    if e.kind == 'append':
        l, vs = e.a[0], [e.a[1]]
    elif e.a[1] == 'extend':
        l, v = e.a[0], e.a[2][0]
        xs = v[1] if v[0] == 'tuple' else items(eng, s, v) if v[0] == 'list' else None
        if xs is None:
            return None
        vs = list(xs)
    else:
        return None
    node, key = holder(eng, s, l)
    if node is None or not is_c(key) or key[2] not in ('Names', 'Kids'):
        return None
    if not first and not any(contains(v, KEYS) for v in vs):
        return None
    if first and not any(contains(v, DESTS) for v in vs):
        return None
    return node, key[2], vs


def strip_idx(k, ind):
    if k[0] == 'idx' and k[1][0] == 'idx' and k[1][2] == ind and k[2] == C(0):
        return k[1][1], True
    if k[0] == 'idx' and k[2] == ind:
        return k[1], False
    if k[0] == 'dkey':
        return ('keys', k[1]), False
    return None


def paired(k, v):
    if v[0] == 'idx' and v[1] == DESTS and v[2] == k:
        return True
    if k[0] == 'idx' and v[0] == 'idx' and k[1] == v[1] and k[2] == C(0) and v[2] == C(1) and k[1][0] == 'idx':
        return True
    if v[0] == 'idx' and v[1] == DESTS:
        return False
    if k[0] == 'idx' and v[0] == 'idx' and contains(v, DESTS) and contains(k, DESTS) and strip_ver(k[2]) == strip_ver(v[2]):
        # the i-th name with the i-th value of another ordering
        if v[1][0] == 'fn' and 'values' in show(v[1]):
            return False
    return None


def whole_of(seq):
    t = strip_ver(seq)
    while t[0] == 'fn' and t[1] in ('list', 'sorted', 'tuple'):
        t = t[2][0]
    if t[0] in ('keys', 'items'):
        t = t[1]
    if t == DESTS:
        return True
    if t[0] == 'slice' or (t[0] == 'comp' and t[4] is not None):
        return False
    return None


def fate(prog, rep, eng, p, L, every, R, LR, fi, depth):
    where = L.fi.loc(L.node)
    evs = [e for e, _ in all_events(p.trace)]
    regs = [e for e in evs if e.kind == 'setitem' and e.a[1] == C('Dests')]
    calls = []
    for e in evs:
        if e.kind == 'call' and any(a in R for _, a in e.a[2]):
            calls.append(e)
    one = is_one(eng, L, every, R, p)
    dels = [e for e in evs if e.kind == 'del' and e.a[1] == C('Limits')]
    if regs:
        e = regs[-1]
        b, k, v = e.a
        hold = b
        o = obj_of_id(eng, p.state, v)
        node_ok = o is not None and (o[0] == 'out' and o[1] == L.id or (o[0] == 'idx' and o[1] in R) or (o[0] == 'obj' and o[2] > L.id))
        if o is None and v[0] == 'idx' and v[1] in R:
            node_ok = True
        if not node_ok:
            rep.unk('root', e.loc, 'Dests is %s' % show(v))
        elif one is True:
            rep.ok('root', e.loc)
        elif one is False:
            rep.bad('root', e.loc, 'the root is registered where more than one node is left (%s)' % p.where())
        else:
            rep.unk('root', e.loc, 'number of nodes left not known')
        hb = b
        r = ('attr', SELF, 'root', 0)
        okh = any(ev.kind == 'setitem' and ev.a[1] == C('Names') and base_obj(eng, p.state, ev.a[0]) == r and ev.a[2] == b for ev in evs) or \
            (b[0] in ('idx', 'get', 'setdef') and b[2] == C('Names') and base_obj(eng, p.state, b[1]) == r)
        if base_obj(eng, p.state, b) == r:
            rep.bad('root', e.loc, 'Dests is registered in the catalogue itself, not under Names')
        else:
            rep.check(True if okh else None, 'root', e.loc, 'Dests is set on %s' % show(b))
        if calls:
            rep.bad('root', calls[0].loc, 'another level is built although the root was registered')
    elif calls:
        if one is True:
            rep.bad('root', where, 'no root is registered where %s' % p.where())
        else:
            rep.ok('root', where)
        for e in dels:
            rep.bad('limits', e.loc, 'a node below the root loses its limits where %s' % p.where())
        if depth < 1:
            c = calls[0]
            g = prog.func(c.a[0])
            ids, lims = ('sym', '$ids'), ('sym', '$limits')
            am = {}
            for name, a in c.a[2]:
                am[name] = ids if a in R else lims if a in LR else a
            if not any(a in LR for _, a in c.a[2]):
                rep.unk('limits', c.loc, 'the limits are not handed on')
                return
            eng2 = Engine(prog, opaque=eng.opaque)
            eng2.nomerge = True
            st = State()
            st.facts[('truthy', ids)] = True
            for q in eng2.analyse(g, args=am, state=st):
                rep.functions |= eng2.analysed
                if not q.raised:
                    level(prog, rep, eng2, q, False, g, ids, lims, depth + 1)
    else:
        rep.bad('root', where, 'the nodes built are not registered nor handed on where %s' % p.where())


def is_one(eng, L, every, R, p):
    """whether exactly one node was made: True, False (there may be more), None (not known)"""
    counters = [(r_, 0) for r_ in {eng.len_of(r, p.state) for r in R}]
    for loc, h in L.head.items():
        if loc[0] not in ('env', 'a') or L.entry.get(loc) is None:
            continue
        off = poly_const(L.entry[loc])
        if off is None:
            continue
        if all(i['opened'] is not None and eng.get_loc(i['s'], loc) is not None and
               differ(p_sub(eng.get_loc(i['s'], loc), h), C(1 if i['opened'] else 0)) is True for i in every):
            counters.append((('out', L.id, loc), int(off)))
    for t, off in counters:
        lo, hi, ne = 1, None, set()
        seen = False
        for f, b in p.facts.items():
            if f[0] == 'eq' and t in f[1:]:
                o = f[2] if f[1] == t else f[1]
                if is_c(o) and isinstance(o[2], int):
                    seen = True
                    if b:
                        lo, hi = max(lo, o[2] - off), o[2] - off
                    else:
                        ne.add(o[2] - off)
            elif f[0] == 'lt0' and contains(f[1], t):
                d = poly_const(p_sub(f[1], t))
                e = poly_const(p_add(f[1], t))
                if d is not None:           # t + d < 0
                    seen = True
                    x = -d - off
                    if b:
                        hi = x - 1 if hi is None else min(hi, x - 1)
                    else:
                        lo = max(lo, x)
                elif e is not None:         # e - t < 0
                    seen = True
                    x = e - off
                    if b:
                        lo = max(lo, x + 1)
                    else:
                        hi = x if hi is None else min(hi, x)
        if not seen:
            continue
        while lo in ne:
            lo += 1
        if hi is not None and lo == hi == 1:
            return True
        return False
    return None
